package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"

	servicesunlynx "github.com/ldsec/unlynx/services"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Wide rows: many attributes, many parts of a key, long statements of proofs.

func init() {
	engine.Register(&engine.Scenario{Name: "c01-many", Prop: "C01", Run: c01Many})
	engine.Register(&engine.Scenario{Name: "c22-wide", Prop: "C22", Run: c22Wide})
	engine.Register(&engine.Scenario{Name: "c25-many", Prop: "C25", Run: c25Many})
	engine.Register(&engine.Scenario{Name: "c06-vectors", Prop: "C06", Run: c06Vectors})
	engine.Register(&engine.Scenario{Name: "c10-wide", Prop: "C10", Run: c10Wide})
	engine.Register(&engine.Scenario{Name: "c13-wide", Prop: "C13", Run: c13Wide})
	engine.Register(&engine.Scenario{Name: "c15-wide", Prop: "C15", Run: c15Wide})
	engine.Register(&engine.Scenario{Name: "c16-large", Prop: "C16", Run: c16Large})
}

// c06Vectors decrypts long vectors.
func c06Vectors(x *engine.X) {
	useToy(6)
	n := x.PickI("length", 2, 99, 101, 257, 301, 1001)
	signed := x.Bool("signed")
	k, pub := libunlynx.GenKey()
	v := make([]int64, n)
	pattern := x.Choose(4, "pattern")
	for i := range v {
		v[i] = []int64{int64(i * 7 % 400), int64(n - i), int64(i % 3), int64(i)}[pattern]
		if signed && i%2 == 1 {
			v[i] = -v[i]
		}
	}
	cv := encAll(pub, v)
	for round := 0; round < 2; round++ {
		var r []int64
		if signed {
			r = libunlynx.DecryptIntVectorWithNeg(k, &cv)
		} else {
			r = libunlynx.DecryptIntVector(k, &cv)
		}
		if !eqInts(r, v) {
			x.Failf("a vector of %d values (pattern %d, signed %v) does not decrypt to its values, round %d", n, pattern, signed, round)
		}
	}
	for i, z := range libunlynx.DecryptCheckZeroVector(k, &cv) {
		if (z == 0) != (v[i] == 0) {
			x.Failf("element %d of %d: the check for zero gives %d for %d", i, n, z, v[i])
		}
	}
	x.Obs("%d %v %d", n, signed, pattern)
}

// c10Wide: keys and text with many numbers; every position is distinguished.
func c10Wide(x *engine.X) {
	n := x.PickI("numbers", 4, 5, 7, 9, 10, 11, 12, 13, 16, 17, 25, 33, 64, 65, 101, 257, 1001)
	p := x.Choose(4, "pattern")
	v := make([]int64, n)
	for i := range v {
		v[i] = []int64{int64(i), keyNums[i%len(keyNums)], -1, 0}[p]
	}
	gk := libunlynx.Key(v)
	d, err := libunlynx.UnKey(gk)
	if need(x, err, "UnKey(%q)", gk) && !eqInts(v, d) {
		x.Failf("Key of %d numbers (pattern %d) gives %q, UnKey gives %v", n, p, gk, d)
	}
	for i := range v {
		w := append([]int64{}, v...)
		w[i] += 3
		if libunlynx.Key(w) == gk {
			x.Failf("%d numbers (pattern %d): number %d is not part of the key", n, p, i)
		}
	}
	st := libunlynxtools.Int64ArrayToString(v)
	if r := libunlynxtools.StringToInt64Array(st); !eqInts(v, r) {
		x.Failf("Int64ArrayToString of %d numbers (pattern %d) is read back as %v", n, p, r)
	}
	for _, start := range []int{0, 3} {
		if r := libunlynxtools.ConvertMapToData(libunlynxtools.ConvertDataToMap(v, "s", start), "s", start); !eqInts(v, r) {
			x.Failf("%d numbers (pattern %d) as a map from %d are converted back to %v", n, p, start, r)
		}
	}
	x.Obs("%d %d", n, p)
}

// c13Wide alters every element of long statements.
func c13Wide(x *engine.X) {
	useToy(13)
	s := libunlynx.SuiTe
	k, pub := libunlynx.GenKey()
	_ = k
	verifreset.Set("VPARALLELIZE", x.PickI("chunk", 100, 3))
	sizes := []int{2, 11, 33, 65}
	if x.Thorough() {
		sizes = append(sizes, 9, 16, 17, 99, 101, 129)
	}
	n := x.PickI("size", sizes...)
	if x.Bool("shuffle") {
		rows, cols := n, 2
		if x.Bool("wide") {
			rows, cols = 2, n
		}
		p := &plist{kind: "shuffle", seed: pub}
		var in []libunlynx.CipherVector
		for r := 0; r < rows; r++ {
			v := make([]int64, cols)
			for c := range v {
				v[c] = int64(r*cols + c)
			}
			in = append(in, encAll(pub, v))
		}
		out, pi, beta := libunlynxshuffle.ShuffleSequence(in, s.Point().Base(), pub, nil)
		pr, err := libunlynxshuffle.ShuffleProofCreation(in, out, s.Point().Base(), pub, beta, pi)
		if !need(x, err, "proof of a shuffle of %d rows of %d", rows, cols) {
			return
		}
		p.shuf.List = append(p.shuf.List, pr)
		if x.Bool("honest") {
			if !p.one(0) {
				x.FailKey("honest", "the honest proof of a shuffle of %d rows of %d does not verify", rows, cols)
			}
			return
		}
		e := p.shuf.List[0]
		long := e.ShuffledList
		orig := x.Bool("original")
		if orig {
			long = e.OriginalList
		}
		// every cell is altered; then exchanged with its neighbour
		ch := x.Choose(3, "change")
		for r := 0; r < rows; r++ {
			for c := 0; c < cols; c++ {
				l := append([]libunlynx.CipherVector{}, long...)
				l[r] = copyCV(l[r])
				what := "altered"
				switch ch {
				case 0:
					l[r][c].C = s.Point().Add(l[r][c].C, s.Point().Base())
				case 1:
					l[r][c].K = s.Point().Add(l[r][c].K, s.Point().Base())
				case 2:
					what = "exchanged with its neighbour"
					if c+1 == cols {
						continue
					}
					l[r][c], l[r][c+1] = l[r][c+1], l[r][c]
				}
				q := p.shallow()
				if orig {
					q.shuf.List[0].OriginalList = l
				} else {
					q.shuf.List[0].ShuffledList = l
				}
				x.Count("altered", 1)
				if q.one(0) || q.all(1) {
					x.FailKey("shuffle-wide", "shuffle of %d rows of %d: the proof verifies although cell %d of row %d (original %v) was %s", rows, cols, c, r, orig, what)
					return
				}
			}
		}
		x.Obs("shuffle %d %d %v %d", rows, cols, orig, ch)
		return
	}
	v := largeVals(n)
	data := encAll(pub, v)
	var sum libunlynx.CipherText
	sum.K, sum.C = s.Point().Null(), s.Point().Null()
	for _, e := range data {
		sum.K, sum.C = s.Point().Add(sum.K, e.K), s.Point().Add(sum.C, e.C)
	}
	if !libunlynxaggr.AggregationProofVerification(libunlynxaggr.AggregationProofCreation(data, sum)) {
		x.FailKey("honest", "the honest proof of a sum of %d does not verify", n)
		return
	}
	for i := range data {
		for ch := 0; ch < 3; ch++ {
			d := copyCV(data)
			switch ch {
			case 0:
				d[i].C = s.Point().Add(d[i].C, s.Point().Base())
			case 1:
				d[i].K = s.Point().Add(d[i].K, s.Point().Base())
			case 2:
				d = append(d[:i:i], d[i+1:]...)
				if data[i].K.Equal(s.Point().Null()) && data[i].C.Equal(s.Point().Null()) {
					continue
				}
			}
			x.Count("altered", 1)
			p := libunlynxaggr.AggregationProofCreation(d, sum)
			if libunlynxaggr.AggregationProofVerification(p) || libunlynxaggr.AggregationListProofVerification(libunlynxaggr.PublishedAggregationListProof{List: []libunlynxaggr.PublishedAggregationProof{p}}, 1) {
				x.FailKey("sum-wide", "sum of %d: the proof verifies although element %d was altered (%d)", n, i, ch)
				return
			}
		}
	}
	x.Obs("sum %d", n)
}

// c15Wide: few groups with many attributes and long keys.
func c15Wide(x *engine.X) {
	useToy(15)
	m := x.Int(1, 3, "servers")
	shape := 0
	if m > 2 {
		shape = x.Choose(2, "star, chain")
	}
	var par []int
	for i := 1; i < m; i++ {
		par = append(par, []int{0, i - 1}[shape])
	}
	na := x.PickI("attributes", 1, 9, 11, 17, 33, 65, 101, 257)
	nk := x.PickI("parts of a key", 0, 1, 11, 33, 101)
	ng := x.PickI("groups", 1, 4, 7)
	if x.Bool("chunks of three") {
		verifreset.Set("VPARALLELIZE", 3)
	}
	proofs := na < 40 && nk < 40 && x.Bool("proofs")
	var data []map[string]aggGroup
	for s := 0; s < m; s++ {
		d := map[string]aggGroup{}
		for g := 0; g < ng; g++ {
			if g > 1 && g%m != s { // two groups are of all servers
				continue
			}
			var a aggGroup
			for i := 0; i < nk; i++ {
				a.group = append(a.group, int64(i*(g+1)%50))
			}
			for i := 0; i < na; i++ {
				a.attrs = append(a.attrs, int64((s+2)*(i+1)+g*1000))
			}
			d[sprintf("k%04d", g)] = a
		}
		data = append(data, d)
	}
	inCluster(x, m, func(c *cluster.Cluster) {
		c15Run(x, c, mkTree(c, par, 0), data, false, proofs, true)
	})
	x.Obs("%v %d %d %d", par, na, nk, ng)
}

// c16Large: one local protocol, and two after each other, on many elements.
func c16Large(x *engine.X) {
	suite := useToy(16)
	kind := x.Choose(3, "local, clear, proofs")
	n := x.PickI("elements", 1, 12, 65, 101, 257)
	if kind == 2 {
		n = x.PickI("proofs", 1, 7, 33, 101)
	}
	ng := []int{1, 3, n}[x.Choose(3, "groups")]
	na := x.PickI("attributes", 1, 11, 33)
	if x.Bool("chunks of three") {
		verifreset.Set("VPARALLELIZE", 3)
	}
	if kind == 2 && (na > 1 || ng > 3 || ng == 3 && n == 1) {
		return
	}
	bad := -1
	if kind == 2 {
		bad = []int{-1, 0, n / 2, n - 1}[x.Choose(4, "altered")]
	}
	k, pub := libunlynx.GenKey()
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, suite)
		defer c.Close()
		tree := c.Roster.GenerateBinaryTree()
		for round := 0; round < 2; round++ {
			name := []string{"Local", "Clear", "Proofs"}[kind]
			pi, err := c.Local.CreateProtocol("Verif"+name, tree)
			if err != nil {
				x.Failf("cannot create %s: %v", name, err)
				return
			}
			mn := pi.(*manual)
			defer close(mn.stop)
			want := map[int][]int64{}
			for i := 0; i < n; i++ {
				if want[i%ng] == nil {
					want[i%ng] = make([]int64, na)
				}
				for j := range want[i%ng] {
					want[i%ng][j] += int64(i*(j+1)%1000 + round)
				}
			}
			row := func(i int) (r []int64) {
				for j := 0; j < na; j++ {
					r = append(r, int64(i*(j+1)%1000+round))
				}
				return
			}
			var exp []string
			for g, a := range want {
				exp = append(exp, fmt.Sprint(g, a))
			}
			res := make(chan []string, 1)
			switch p := mn.ProtocolInstance.(type) {
			case *protocolsunlynxutils.LocalAggregationProtocol:
				p.Proofs = round == 1
				for i := 0; i < n; i++ {
					p.TargetOfAggregation = append(p.TargetOfAggregation, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(sprintf("t%d", i%ng)), Fr: libunlynx.FilteredResponse{GroupByEnc: encAll(pub, []int64{int64(i % ng)}), AggregatingAttributes: encAll(pub, row(i))}})
				}
				go func() {
					var got []string
					for t, r := range <-p.FeedbackChannel {
						g := toySignedV(k, r.GroupByEnc)
						if len(g) != 1 || string(t) != sprintf("t%d", g[0]) {
							got = append(got, fmt.Sprint("tag ", t, g))
							continue
						}
						got = append(got, fmt.Sprint(g[0], toySignedV(k, r.AggregatingAttributes)))
					}
					res <- got
				}()
			case *protocolsunlynxutils.LocalClearAggregationProtocol:
				for i := 0; i < n; i++ {
					p.TargetOfAggregation = append(p.TargetOfAggregation, libunlynx.DpClearResponse{GroupByClear: mapFrom("g", 0, []int64{int64(i % ng)}), AggregatingAttributesClear: mapFrom("s", 0, row(i))})
				}
				go func() {
					var got []string
					for _, r := range <-p.FeedbackChannel {
						got = append(got, fmt.Sprint(r.GroupByClear["g0"], libunlynxtools.ConvertMapToData(r.AggregatingAttributesClear, "s", 0)))
					}
					res <- got
				}()
			case *protocolsunlynxutils.ProofsVerificationProtocol:
				p.TargetOfVerification, exp = c16Proofs(x, n, bad)
				go func() { res <- []string{fmt.Sprint(<-p.FeedbackChannel)} }()
			}
			go mn.Start()
			go mn.ProtocolInstance.Dispatch()
			select {
			case got := <-res:
				sort.Strings(got)
				sort.Strings(exp)
				if a, b := strings.Join(got, ";"), strings.Join(exp, ";"); a != b {
					x.Failf("%s of %d elements in %d groups of %d attributes: %s instead of %s", name, n, ng, na, a, b)
				}
			case <-time.After(time.Hour):
				x.Failf("%s of %d elements does not finish", name, n)
				return
			}
		}
	})
	x.Obs("%d %d %d %d %d", kind, n, ng, na, bad)
}

func c16Proofs(x *engine.X, n, bad int) (protocolsunlynxutils.ProofsToVerify, []string) {
	t := protocolsunlynxutils.ProofsToVerify{}
	want := []bool{true, true, true, true, true, true}
	for j, kd := range []string{"keyswitch", "tagcreation", "tagaddition", "aggregation", "shuffle", "aggregation"} {
		if kd == "shuffle" {
			continue // its verification is that of C13
		}
		l := mkProofs(x, kd, n, 0)
		if bad >= 0 && (bad+j)%2 == 0 {
			l.spoil(bad)
			want[j] = false
		}
		switch j {
		case 0:
			t.KeySwitchingProofs = l.ks
		case 1:
			t.DetTagCreationProofs = l.cr
		case 2:
			t.DetTagAdditionProofs = l.ad
		case 3:
			t.AggregationProofs = l.aggr
		case 5:
			t.CollectiveAggregationProofs = l.aggr
		}
	}
	return t, []string{fmt.Sprint(want)}
}

// c01Many: surveys with many attributes, groups or servers.
func c01Many(x *engine.X) {
	useToy(1)
	n, na, nw, ng := 2, 2, 1, 3
	dim := x.Choose(5, "many sums, group attributes, where attributes, groups, servers")
	big := []int{13, 33, 60}
	gl := 1
	switch dim {
	case 0:
		na = x.PickI("sums", big...)
	case 1:
		gl = x.PickI("group attributes", big...)
	case 2:
		nw = x.PickI("where attributes", big...)
	case 3:
		ng = x.PickI("groups", 31, 70, 130)
	case 4:
		n = x.PickI("servers", 7, 9)
		if x.Thorough() {
			n += x.PickI("more", 0, 1, 4, 8)
		}
	}
	mask := []int{0, 1<<62 - 1, 0x555555555555}[x.Choose(3, "encrypted")]
	proofs := dim < 3 && mask > 0 && x.Bool("proofs")
	if proofs && !x.Thorough() && na+gl+nw > 25 {
		return
	}
	q := svQuery{sum: names("s", na), groupBy: names("g", gl), proofs: proofs}
	for i := 0; i < nw; i++ {
		q.where = append(q.where, svWhere{sprintf("w%d", i+1), int64(i % 4)})
	}
	q.pred, q.eval = eqPred(nw)
	var d []svDP
	for s := 0; s < n; s++ {
		if dim == 4 && s%3 == 1 {
			continue
		}
		p := svDP{server: s, rep: 1}
		for i := 0; i < ng+2; i++ {
			var g, w, a []int64
			for j := 0; j < gl; j++ {
				g = append(g, int64(j%5))
			}
			g[gl-1] = int64(i % ng)
			for j := 0; j < nw; j++ {
				w = append(w, int64(j%4))
			}
			if i == ng { // one that does not match because of its last attribute
				w[nw-1]++
			}
			for j := 0; j < na; j++ {
				a = append(a, int64((s+1)*(j+1)+10*i))
			}
			p.rows = append(p.rows, svRow(g, mask, w, mask>>1, a, mask>>2))
		}
		d = append(d, p)
	}
	c01Do(x, n, x.Choose(2, "querier's server")*(n-1), q, d, true)
	x.Obs("%d %d %d %d %d %x", n, na, gl, nw, ng, mask)
}

// c22Wide: queries with many attributes.
func c22Wide(x *engine.X) {
	n := x.PickI("attributes", 4, 9, 10, 11, 12, 13, 17, 33, 65, 130)
	which := x.Choose(3, "sum, where, group")
	sep := []string{",", ", "}[x.Choose(2, "separator")]
	var e []string
	for i := 1; i <= n; i++ {
		a := sprintf("%s%d", []string{"s", "w", "g"}[which], i)
		if which == 1 {
			a += sep + sprintf("%d", i*i*i*7)
		}
		e = append(e, a)
	}
	at := n // nothing is changed
	if x.Bool("changed") {
		at = []int{0, n / 2, n - 1}[x.Choose(3, "position")]
		e[at] = []string{"", "x1", "s", "w1", "g-1", "1"}[x.Choose(6, "change")]
	}
	s := "{" + strings.Join(e, sep) + "}"
	sum, where, pred, group := "{s1, s2}", "{w1, 1}", "v0 == v1", "{g1}"
	q := cliQuery{sum: &sum, where: &where, predicate: &pred, groupBy: &group}
	*[]*string{&sum, &where, &group}[which] = s
	c22Run(x, q, 1)
}

// c25Many: many rows.
func c25Many(x *engine.X) {
	useToy(25)
	n := x.PickI("rows", 17, 65, 101, 257, 1001)
	m := x.Int(1, 2, "where attributes")
	pattern := x.Choose(6, "rows that match: all, none, odd, first, last, all but the last")
	pi := x.Choose(4, "predicate")
	if x.Bool("chunks of three") {
		verifreset.Set("VPARALLELIZE", 3)
	}
	tag := func(k int) libunlynx.GroupingKey { return libunlynx.GroupingKey(fmt.Sprintf("t%d", k)) }
	var q []libunlynx.WhereQueryAttributeTagged
	for i := 0; i < m; i++ {
		q = append(q, libunlynx.WhereQueryAttributeTagged{Name: fmt.Sprintf("w%d", i), Value: tag(i)})
	}
	var rows []libunlynx.ProcessResponseDet
	var match []bool
	for i := 0; i < n; i++ {
		ok := []bool{true, false, i%2 == 1, i == 0, i == n-1, i < n-1}[pattern]
		var gk []libunlynx.GroupingKey
		for j := 0; j < m; j++ {
			t := tag(j)
			if !ok && j == i%m {
				t = tag(10 + i)
			}
			gk = append(gk, t)
		}
		rows = append(rows, libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{GroupByEnc: libunlynx.CipherVector{{K: pt(int64(i)), C: pt(1)}}, AggregatingAttributes: libunlynx.CipherVector{{K: pt(int64(i)), C: pt(2)}}},
			DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprintf("g%d", i%9)), DetTagWhere: gk})
		match = append(match, ok)
	}
	and, or := "v0 == v1", "v0 != v1"
	if m == 2 {
		and, or = "v0 == v1 && v2 == v3", "v0 != v1 || v2 != v3"
	}
	pred := []string{and, or, "!(" + and + ")", "v0 == v1 || v0 != v1"}[pi]
	c25Check(x, fmt.Sprintf("%d rows, predicate %q", n, pred), rows, func(i int) bool { return pi == 3 || match[i] == (pi == 0) }, servicesunlynx.FilterResponses(pred, q, rows))
	x.Obs("%d %d %d %d", n, m, pattern, pi)
}
