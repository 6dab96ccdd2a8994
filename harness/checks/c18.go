package checks

import (
	"fmt"
	"sort"
	"strings"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C18"] = Info{Level: "model_checking", Rule: "every sequence up to the depth of the insert and retrieve operations of one store over a small alphabet of responses (per storage area, and mixed over all areas); after every operation the retrieved responses are compared, decrypted, with a reference store, and everything retrieved earlier is compared with a snapshot. Plus every assignment of the attributes of one response to the clear and encrypted maps.",
		Assume: []string{"toy group: the store only moves and adds ciphertexts", "responses of one store have the same attributes"}}
	reg := func(name string, q, t int, f func(x *engine.X, depth int)) {
		engine.Register(&engine.Scenario{Name: name, Prop: "C18", Run: func(x *engine.X) {
			d := q
			if x.Thorough() {
				d = t
			}
			f(x, d)
		}})
	}
	reg("c18-dp", 6, 8, func(x *engine.X, d int) { c18Run(x, d, []string{"E1", "E2", "A1", "A2", "pullDp"}) })
	reg("c18-dp2", 5, 7, func(x *engine.X, d int) { c18Run(x, d, []string{"E1", "A1", "B1", "C1", "pullDp"}) })
	reg("c18-shuffled", 7, 9, func(x *engine.X, d int) { c18Run(x, d, []string{"S0", "S1", "S2", "pullSh"}) })
	reg("c18-local", 6, 7, func(x *engine.X, d int) { c18Run(x, d, []string{"L1", "L2", "L11", "L12", "L0", "pullLoc"}) })
	reg("c18-localproofs", 4, 5, func(x *engine.X, d int) { c18Run(x, d, []string{"P1", "P2", "P11", "P12", "pullLoc"}) })
	reg("c18-coth", 5, 6, func(x *engine.X, d int) { c18Run(x, d, []string{"G1", "G2", "G12", "G0", "pullGr", "pullGrN"}) })
	// sums without randomness: those of data that was never encrypted
	reg("c18-clear", 4, 5, func(x *engine.X, d int) {
		c18RunWith(x, d, []string{"E1", "A1", "pullDp", "L1", "P12", "pullLoc", "G1", "G12", "pullGrN", "D2", "pullDeN"}, true)
	})
	reg("c18-deliv", 7, 9, func(x *engine.X, d int) { c18Run(x, d, []string{"D0", "D1", "D2", "pullDe", "pullDeN"}) })
	reg("c18-mixed", 4, 5, func(x *engine.X, d int) {
		c18Run(x, d, []string{"E1", "A1", "A2", "pullDp", "S2", "Sre", "pullSh", "L12", "Lre", "pullLoc", "G12", "Gre", "pullGrN", "D2", "Dre", "pullDeN"})
	})
	engine.Register(&engine.Scenario{Name: "c18-insert", Prop: "C18", Run: c18Insert})
	engine.Register(&engine.Scenario{Name: "c18-aggr", Prop: "C18", Run: c18Aggr})
}

// c18Row is the reference form of one response.
func prString(k kyber.Scalar, p libunlynx.ProcessResponse) string {
	return fmt.Sprintf("g%v w%v a%v", toySignedV(k, p.GroupByEnc), toySignedV(k, p.WhereEnc), toySignedV(k, p.AggregatingAttributes))
}
func frString(k kyber.Scalar, p libunlynx.FilteredResponse) string {
	return fmt.Sprintf("g%v a%v", toySignedV(k, p.GroupByEnc), toySignedV(k, p.AggregatingAttributes))
}
func sortedS(s []string) []string { r := append([]string{}, s...); sort.Strings(r); return r }

type c18 struct {
	x   *engine.X
	k   kyber.Scalar
	pub kyber.Point
	s   *libunlynxstore.Store
	n   int64
	// ciphertexts without randomness
	clear bool
	hist  []string
	// snapshots of what was retrieved
	watch []func() string
	was   []string
	// reference
	enc, sh, del []string
	delFull      bool
	agg          map[string]int64
	loc, gr      map[string][2]int64 // key -> group, sum
	// the last retrieved data
	lastPR []libunlynx.ProcessResponse
	lastFR []libunlynx.FilteredResponse
	lastM  map[libunlynx.GroupingKey]libunlynx.FilteredResponse
}

func (c *c18) remember(f func() string) { c.watch = append(c.watch, f); c.was = append(c.was, f()) }

func (c *c18) ct(v int64) libunlynx.CipherText {
	if c.clear {
		return libunlynx.IntToCipherText(v)
	}
	return *libunlynx.EncryptInt(c.pub, v)
}
func (c *c18) fr(g, v int64) libunlynx.FilteredResponse {
	return libunlynx.FilteredResponse{GroupByEnc: libunlynx.CipherVector{c.ct(g)}, AggregatingAttributes: libunlynx.CipherVector{c.ct(v), c.ct(2 * v)}}
}

// next gives a value that identifies its insertion in every sum
func (c *c18) next() int64 { c.n++; return 1 << uint(c.n) }

func (c *c18) same(what string, got, want []string) {
	g, w := sortedS(got), sortedS(want)
	if strings.Join(g, ";") != strings.Join(w, ";") {
		c.x.Failf("after %v: %s gives %v, expected %v", c.hist, what, g, w)
	}
}

func kv(m map[string][2]int64, noise int64) []string {
	var r []string
	for _, e := range m {
		r = append(r, fmt.Sprintf("g[%d] a[%d %d]", e[0], e[1]+noise, 2*e[1]+noise))
	}
	return r
}

func addTo(m map[string][2]int64, k string, g, v int64) { e := m[k]; m[k] = [2]int64{g, e[1] + v} }

func c18Run(x *engine.X, depth int, ops []string) { c18RunWith(x, depth, ops, false) }

func c18RunWith(x *engine.X, depth int, ops []string, clear bool) {
	useToy(18)
	verifreset.Set("VPARALLELIZE", 2)
	c := &c18{x: x, clear: clear, s: libunlynxstore.NewStore(), agg: map[string]int64{}, loc: map[string][2]int64{}, gr: map[string][2]int64{}}
	c.k, c.pub = libunlynx.GenKey()
	for i := 0; i < depth; i++ {
		op := ops[x.Choose(len(ops), "op")]
		c.hist = append(c.hist, op)
		c.do(op)
		for j, f := range c.watch {
			if s := f(); s != c.was[j] {
				x.Failf("after %v: responses retrieved earlier changed from %s to %s", c.hist, c.was[j], s)
			}
		}
		if x.Failed() {
			return
		}
		x.State(fmt.Sprint(sortedS(c.enc), c.agg, c.sh, c.loc, c.gr, c.del))
	}
	// what is left comes out at the end
	for _, op := range []string{"pullDp", "pullSh", "pullLoc", "pullGr", "pullDe"} {
		c.hist = append(c.hist, op)
		c.do(op)
	}
	for j, f := range c.watch {
		if s := f(); s != c.was[j] {
			x.Failf("after %v: responses retrieved earlier changed from %s to %s", c.hist, c.was[j], s)
		}
	}
}

func (c *c18) do(op string) {
	x, s, k := c.x, c.s, c.k
	name := []libunlynx.WhereQueryAttribute{{Name: "w"}}
	switch op[0] {
	case 'E': // a response with an encrypted grouping attribute: kept as it is
		v := c.next()
		g := int64(op[1] - '0')
		s.InsertDpResponse(libunlynx.DpResponse{GroupByEnc: map[string]libunlynx.CipherText{"g": c.ct(g)}, WhereClear: map[string]int64{"w": 7}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{"s": c.ct(v)}}, c.n%2 == 0, []string{"g"}, []string{"s"}, name)
		c.enc = append(c.enc, fmt.Sprintf("g[%d] w[7] a[%d]", g, v))
	case 'A', 'B', 'C': // clear attributes: aggregated per group
		v := c.next()
		g := int64(op[1] - '0')
		w := int64(op[0]-'A') * 11
		s.InsertDpResponse(libunlynx.DpResponse{GroupByClear: map[string]int64{"g": g}, WhereClear: map[string]int64{"w": w}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{"s": c.ct(v)}}, c.n%2 == 0, []string{"g"}, []string{"s"}, name)
		c.agg[fmt.Sprintf("g[%d] w[%d]", g, w)] += v
	case 'S':
		var rows []libunlynx.ProcessResponse
		if op == "Sre" {
			rows = c.lastPR
		} else {
			for i := 0; i < int(op[1]-'0'); i++ {
				v := c.next()
				rows = append(rows, libunlynx.ProcessResponse{WhereEnc: libunlynx.CipherVector{c.ct(1)}, GroupByEnc: libunlynx.CipherVector{c.ct(2)}, AggregatingAttributes: libunlynx.CipherVector{c.ct(v)}})
			}
		}
		for _, r := range rows {
			c.sh = append(c.sh, prString(k, r))
		}
		s.PushShuffledProcessResponses(rows)
	case 'L', 'P':
		var rows []libunlynx.FilteredResponseDet
		if op == "Lre" {
			for i, f := range c.lastFR {
				key := fmt.Sprintf("re%d", i)
				rows = append(rows, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(key), Fr: f})
				a := toySignedV(k, f.AggregatingAttributes)
				g := toySignedV(k, f.GroupByEnc)
				addTo(c.loc, key, g[0], a[0])
			}
		} else {
			for _, ch := range op[1:] {
				if ch == '0' {
					continue
				}
				v := c.next()
				rows = append(rows, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(string(ch)), Fr: c.fr(int64(ch), v)})
				addTo(c.loc, string(ch), int64(ch), v)
			}
		}
		s.PushDeterministicFilteredResponses(rows, "s", op[0] == 'P')
	case 'G':
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		if op == "Gre" {
			m = c.lastM
			for key, f := range m {
				a, g := toySignedV(k, f.AggregatingAttributes), toySignedV(k, f.GroupByEnc)
				addTo(c.gr, string(key), g[0], a[0])
			}
		} else {
			for _, ch := range op[1:] {
				if ch == '0' {
					continue
				}
				v := c.next()
				m[libunlynx.GroupingKey(string(ch))] = c.fr(int64(ch), v)
				addTo(c.gr, string(ch), int64(ch), v)
			}
		}
		s.PushCothorityAggregatedFilteredResponses(m)
	case 'D':
		if c.delFull {
			return // a new result replaces the one that was not fetched
		}
		var rows []libunlynx.FilteredResponse
		if op == "Dre" {
			rows = c.lastFR
		} else {
			for i := 0; i < int(op[1]-'0'); i++ {
				rows = append(rows, c.fr(5, c.next()))
			}
		}
		c.del = nil
		for _, r := range rows {
			c.del = append(c.del, frString(k, r))
		}
		c.delFull = len(rows) > 0
		s.PushQuerierKeyEncryptedResponses(rows)
	case 'p':
		c.pull(op)
	}
	_ = x
}

const c18Noise = -100003

func (c *c18) pull(op string) {
	s, k := c.s, c.k
	noisy := op[len(op)-1] == 'N'
	nv := int64(0)
	var noise libunlynx.CipherText
	if noisy {
		nv = c18Noise
		noise = c.ct(nv)
		if c.clear {
			noise = libunlynx.IntToCipherText(nv)
		}
	}
	switch strings.TrimSuffix(op, "N") {
	case "pullDp":
		rows := s.PullDpResponses()
		var got []string
		for _, r := range rows {
			got = append(got, prString(k, r))
		}
		want := append([]string{}, c.enc...)
		for g, v := range c.agg {
			want = append(want, fmt.Sprintf("%s a[%d]", g, v))
		}
		c.same("PullDpResponses", got, want)
		c.enc, c.agg = nil, map[string]int64{}
		c.rememberPR(rows)
	case "pullSh":
		rows := s.PullShuffledProcessResponses()
		var got []string
		for _, r := range rows {
			got = append(got, prString(k, r))
		}
		if strings.Join(got, ";") != strings.Join(c.sh, ";") {
			c.x.Failf("after %v: PullShuffledProcessResponses gives %v, expected %v", c.hist, got, c.sh)
		}
		c.sh = nil
		c.rememberPR(rows)
	case "pullLoc":
		if s.HasNextAggregatedResponse() != (len(c.loc) > 0) {
			c.x.Failf("after %v: HasNextAggregatedResponse is wrong (%d groups)", c.hist, len(c.loc))
		}
		m := s.PullLocallyAggregatedResponses()
		c.sameMap("PullLocallyAggregatedResponses", m, c.loc)
		c.loc = map[string][2]int64{}
		c.lastM = m
		c.remember(func() string {
			var l []string
			for kk, v := range m {
				l = append(l, string(kk)+frString(k, v))
			}
			return strings.Join(sortedS(l), ";")
		})
	case "pullGr":
		if s.HasNextAggregatedFilteredResponses() != (len(c.gr) > 0) {
			c.x.Failf("after %v: HasNextAggregatedFilteredResponses is wrong (%d groups)", c.hist, len(c.gr))
		}
		rows := s.PullCothorityAggregatedFilteredResponses(noisy, noise)
		var got []string
		for _, r := range rows {
			got = append(got, frString(k, r))
		}
		c.same(op+" (noise "+fmt.Sprint(nv)+")", got, kv(c.gr, nv))
		c.gr = map[string][2]int64{}
		c.rememberFR(rows)
	case "pullDe":
		rows := s.PullDeliverableResults(noisy, noise)
		var got, want []string
		for _, r := range rows {
			got = append(got, frString(k, r))
		}
		for _, w := range c.del {
			if noisy {
				var g, a, b int64
				fmt.Sscanf(w, "g[%d] a[%d %d]", &g, &a, &b)
				w = fmt.Sprintf("g[%d] a[%d %d]", g, a+nv, b+nv)
			}
			want = append(want, w)
		}
		if strings.Join(got, ";") != strings.Join(want, ";") {
			c.x.Failf("after %v: %s gives %v, expected %v", c.hist, op, got, want)
		}
		c.del, c.delFull = nil, false
		c.rememberFR(rows)
	}
}

func (c *c18) sameMap(what string, m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, want map[string][2]int64) {
	if len(m) != len(want) {
		c.x.Failf("after %v: %s gives %d groups, expected %d", c.hist, what, len(m), len(want))
		return
	}
	for key, w := range want {
		f, ok := m[libunlynx.GroupingKey(key)]
		if e := fmt.Sprintf("g[%d] a[%d %d]", w[0], w[1], 2*w[1]); !ok || frString(c.k, f) != e {
			c.x.Failf("after %v: %s gives %v for group %s, expected %s", c.hist, what, frString(c.k, f), key, e)
		}
	}
}

func (c *c18) rememberPR(rows []libunlynx.ProcessResponse) {
	k := c.k
	if len(rows) > 0 {
		c.lastPR = rows
	}
	c.remember(func() string {
		var l []string
		for _, r := range rows {
			l = append(l, prString(k, r))
		}
		return strings.Join(l, ";")
	})
}

func (c *c18) rememberFR(rows []libunlynx.FilteredResponse) {
	k := c.k
	var ok []libunlynx.FilteredResponse
	for _, r := range rows {
		if len(r.AggregatingAttributes) == 2 && len(r.GroupByEnc) == 1 && 2*toySignedV(k, r.AggregatingAttributes)[0] == toySignedV(k, r.AggregatingAttributes)[1] {
			ok = append(ok, r)
		}
	}
	if len(ok) > 0 {
		c.lastFR = ok
	}
	c.remember(func() string {
		var l []string
		for _, r := range rows {
			l = append(l, frString(k, r))
		}
		return strings.Join(l, ";")
	})
}

// c18Insert: every attribute of the query may be in clear or encrypted.
func c18Insert(x *engine.X) {
	useToy(181)
	verifreset.Set("VPARALLELIZE", 2)
	k, pub := libunlynx.GenKey()
	max := 2
	if x.Thorough() {
		max = 3
	}
	ng, nw, ns := x.Int(0, max, "grouping"), x.Int(0, max, "where"), x.Int(0, max+1, "sum")
	r := libunlynx.DpResponse{}
	val := int64(3)
	attrs := func(n int, pre string, clear *map[string]int64, enc *map[string]libunlynx.CipherText) (names []string, want []int64, anyEnc bool) {
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s%d", pre, n-i) // not in lexical order
			names = append(names, name)
			val += 2
			v := val
			if i%2 == 1 {
				v = -v
			}
			want = append(want, v)
			if x.Bool(pre + "enc") {
				if *enc == nil {
					*enc = map[string]libunlynx.CipherText{}
				}
				(*enc)[name] = *libunlynx.EncryptInt(pub, v)
				anyEnc = true
			} else {
				if *clear == nil {
					*clear = map[string]int64{}
				}
				(*clear)[name] = v
			}
		}
		return
	}
	gn, gv, _ := attrs(ng, "g", &r.GroupByClear, &r.GroupByEnc)
	wn, wv, _ := attrs(nw, "w", &r.WhereClear, &r.WhereEnc)
	sn, sv, _ := attrs(ns, "s", &r.AggregatingAttributesClear, &r.AggregatingAttributesEnc)
	// attributes that the query does not mention are ignored
	if x.Bool("extra attributes") {
		if r.GroupByClear == nil {
			r.GroupByClear = map[string]int64{}
		}
		r.GroupByClear["gx"] = 77
		if r.AggregatingAttributesClear == nil {
			r.AggregatingAttributesClear = map[string]int64{}
		}
		r.AggregatingAttributesClear["sx"] = 78
	}
	var where []libunlynx.WhereQueryAttribute
	for _, n := range wn {
		where = append(where, libunlynx.WhereQueryAttribute{Name: n, Value: *libunlynx.EncryptInt(pub, 99)})
	}
	s := libunlynxstore.NewStore()
	s.InsertDpResponse(r, x.Bool("proofs"), gn, sn, where)
	got := s.PullDpResponses()
	if len(got) != 1 {
		x.Failf("one response inserted, %d retrieved", len(got))
		return
	}
	p := got[0]
	if !eqInts(toySignedV(k, p.GroupByEnc), gv) || !eqInts(toySignedV(k, p.WhereEnc), wv) || !eqInts(toySignedV(k, p.AggregatingAttributes), sv) {
		x.Failf("response with grouping %v where %v sums %v (maps %v %v | %v %v) is stored as %s", gv, wv, sv, r.GroupByClear, len(r.GroupByEnc), r.WhereClear, len(r.WhereEnc), prString(k, p))
	}
}

// c18Aggr: clear responses with any group and where values are aggregated
// together exactly when all these values agree.
func c18Aggr(x *engine.X) {
	useToy(182)
	verifreset.Set("VPARALLELIZE", 2)
	k, pub := libunlynx.GenKey()
	ng, nw := x.Int(0, 2, "grouping"), x.Int(0, 2, "where")
	n := 2
	vs := []int64{0, 1, 11, -1}
	if ng+nw > 2 {
		vs = []int64{1, 11, -1}
	}
	if x.Thorough() && ng+nw <= 2 {
		n = 3
	}
	s := libunlynxstore.NewStore()
	want := map[string][]int64{}
	na := x.PickI("sums", 1, 3)
	gn, wn, sn := []string{"ga", "gb"}[:ng], []string{"wa", "wb"}[:nw], []string{"sa", "sb", "sc"}[:na]
	var where []libunlynx.WhereQueryAttribute
	for _, w := range wn {
		where = append(where, libunlynx.WhereQueryAttribute{Name: w, Value: *libunlynx.EncryptInt(pub, 9)})
	}
	for i := 0; i < n; i++ {
		r := libunlynx.DpResponse{GroupByClear: map[string]int64{}, WhereClear: map[string]int64{}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{}}
		var g, w []int64
		for _, a := range gn {
			v := x.Pick64("g", vs...)
			r.GroupByClear[a] = v
			g = append(g, v)
		}
		for _, a := range wn {
			v := x.Pick64("w", vs...)
			r.WhereClear[a] = v
			w = append(w, v)
		}
		var sums []int64
		for j, a := range sn {
			v := int64(1+j*100) << uint(i)
			r.AggregatingAttributesEnc[a] = *libunlynx.EncryptInt(pub, v)
			sums = append(sums, v)
		}
		s.InsertDpResponse(r, x.Tier != "" && i%2 == 1, gn, sn, where)
		key := fmt.Sprintf("g%v w%v", g, w)
		if old, ok := want[key]; ok {
			for j := range sums {
				sums[j] += old[j]
			}
		}
		want[key] = sums
	}
	var got, exp []string
	for _, p := range s.PullDpResponses() {
		got = append(got, prString(k, p))
	}
	for key, v := range want {
		exp = append(exp, fmt.Sprintf("%s a%v", key, v))
	}
	if strings.Join(sortedS(got), ";") != strings.Join(sortedS(exp), ";") {
		x.Failf("clear responses are stored as %v, expected %v", sortedS(got), sortedS(exp))
	}
}
