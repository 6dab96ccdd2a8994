package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	for _, s := range []struct {
		p   string
		run func(*engine.X)
	}{{"C18", c18Large}, {"C19", c19Large}, {"C20", c20Large}} {
		engine.Register(&engine.Scenario{Name: "c" + s.p[1:] + "-large", Prop: s.p, Run: s.run})
	}
}

func largeSizes(x *engine.X) int {
	sizes := []int{12, 100, 101, 257}
	if x.Thorough() {
		sizes = []int{12, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 301, 1000, 1025}
	}
	return x.PickI("elements", sizes...)
}

// c18Large: every operation of the store with many elements, many groups and
// many attributes.
func c18Large(x *engine.X) {
	useToy(18)
	n := largeSizes(x)
	if x.Bool("chunks of three") {
		verifreset.Set("VPARALLELIZE", 3)
	}
	na := x.PickI("attributes", 1, 2, 11, 33)
	if na > 11 && n > 12 && !x.Thorough() {
		return
	}
	ng := []int{1, 7, n}[x.Choose(3, "groups")]
	k, pub := libunlynx.GenKey()
	val := func(i, j int) int64 { return int64(i*(j+1) - 40) }
	namesOf := names
	names := namesOf("s", na)
	s := libunlynxstore.NewStore()
	want := map[int64][]int64{}
	plus := func(g int64, i int, sum bool) {
		if want[g] == nil {
			want[g] = make([]int64, na)
		}
		for j := range want[g] {
			want[g][j] += val(i, j)
		}
	}
	encd := func(i int) (cv libunlynx.CipherVector) {
		for j := 0; j < na; j++ {
			cv = append(cv, *libunlynx.EncryptInt(pub, val(i, j)))
		}
		return
	}
	var got, exp []string
	op := x.Choose(6, "operation")
	add := func(g libunlynx.CipherVector, a libunlynx.CipherVector) {
		got = append(got, fmt.Sprint(toySignedV(k, g), toySignedV(k, a)))
	}
	again := 0
	switch op {
	case 0, 1: // responses of providers, grouped in the clear or encrypted
		gn, wn := namesOf("g", na), namesOf("w", na)
		var wq []libunlynx.WhereQueryAttribute
		for _, nm := range wn {
			wq = append(wq, libunlynx.WhereQueryAttribute{Name: nm})
		}
		// the last part of the key tells the group, the others are positions
		full := func(g int64) (r []int64) {
			for j := 0; j < na-1; j++ {
				r = append(r, int64(j+5))
			}
			return append(r, g)
		}
		var wv []int64
		for j := 0; j < na; j++ {
			wv = append(wv, int64(2*j+1))
		}
		for i := 0; i < n; i++ {
			g := int64(i % ng)
			r := libunlynx.DpResponse{AggregatingAttributesEnc: map[string]libunlynx.CipherText{}, AggregatingAttributesClear: map[string]int64{}}
			if op == 0 {
				r.GroupByClear, r.WhereClear = map[string]int64{}, map[string]int64{}
				for j, v := range full(g) {
					r.GroupByClear[gn[j]], r.WhereClear[wn[j]] = v, wv[j]
				}
				plus(g, i, true)
			} else {
				r.GroupByClear, r.GroupByEnc = map[string]int64{}, map[string]libunlynx.CipherText{}
				r.WhereClear, r.WhereEnc = map[string]int64{}, map[string]libunlynx.CipherText{}
				for j, v := range full(g) {
					if j%3 == 0 {
						r.GroupByEnc[gn[j]], r.WhereClear[wn[j]] = *libunlynx.EncryptInt(pub, v), wv[j]
					} else {
						r.GroupByClear[gn[j]], r.WhereEnc[wn[j]] = v, *libunlynx.EncryptInt(pub, wv[j])
					}
				}
				var v []int64
				for j := 0; j < na; j++ {
					v = append(v, val(i, j))
				}
				exp = append(exp, fmt.Sprint([]int64{g}, v))
			}
			for j, nm := range names {
				if (i+j)%3 == 0 {
					r.AggregatingAttributesClear[nm] = val(i, j)
				} else {
					r.AggregatingAttributesEnc[nm] = *libunlynx.EncryptInt(pub, val(i, j))
				}
			}
			s.InsertDpResponse(r, i%2 == 0, gn, names, wq)
		}
		for _, p := range s.PullDpResponses() {
			gv := toySignedV(k, p.GroupByEnc)
			if len(gv) != na || !eqInts(gv, full(gv[na-1])) || !eqInts(toySignedV(k, p.WhereEnc), wv) {
				x.Failf("operation %d with %d elements in %d groups of %d attributes: a row has the key %v and the where attributes %v", op, n, ng, na, gv, toySignedV(k, p.WhereEnc))
				return
			}
			add(p.GroupByEnc[na-1:], p.AggregatingAttributes)
		}
		again = len(s.PullDpResponses())
	case 2: // shuffled
		var l []libunlynx.ProcessResponse
		for i := 0; i < n; i++ {
			l = append(l, libunlynx.ProcessResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{int64(i % ng)}), AggregatingAttributes: encd(i)})
			exp = append(exp, fmt.Sprint([]int64{int64(i % ng)}, toySignedV(k, l[i].AggregatingAttributes)))
		}
		s.PushShuffledProcessResponses(l[:n/3])
		s.PushShuffledProcessResponses(l[n/3:])
		for _, p := range s.PullShuffledProcessResponses() {
			add(p.GroupByEnc, p.AggregatingAttributes)
		}
		again = len(s.PullShuffledProcessResponses())
	case 3: // tagged: aggregated per tag
		var l []libunlynx.FilteredResponseDet
		for i := 0; i < n; i++ {
			l = append(l, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(sprintf("t%d", i%ng)), Fr: libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{int64(i % ng)}), AggregatingAttributes: encd(i)}})
			plus(int64(i%ng), i, true)
		}
		s.PushDeterministicFilteredResponses(l[:n/3], "s", false)
		s.PushDeterministicFilteredResponses(l[n/3:], "s", na == 2)
		for _, p := range s.PullLocallyAggregatedResponses() {
			add(p.GroupByEnc, p.AggregatingAttributes)
		}
		again = len(s.PullLocallyAggregatedResponses())
	case 4: // groups of the servers
		for lo := 0; lo < n; lo += ng {
			m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for i := lo; i < lo+ng && i < n; i++ {
				m[libunlynx.GroupingKey(sprintf("t%d", i%ng))] = libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{int64(i % ng)}), AggregatingAttributes: encd(i)}
				plus(int64(i%ng), i, true)
			}
			s.PushCothorityAggregatedFilteredResponses(m)
		}
		for _, p := range s.PullCothorityAggregatedFilteredResponses(false, libunlynx.CipherText{}) {
			add(p.GroupByEnc, p.AggregatingAttributes)
		}
		again = len(s.PullCothorityAggregatedFilteredResponses(false, libunlynx.CipherText{}))
	case 5: // results
		var l []libunlynx.FilteredResponse
		for i := 0; i < n; i++ {
			l = append(l, libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{int64(i)}), AggregatingAttributes: encd(i)})
			plus(int64(i), i, true)
		}
		s.PushQuerierKeyEncryptedResponses(l)
		for _, p := range s.PullDeliverableResults(false, libunlynx.CipherText{}) {
			add(p.GroupByEnc, p.AggregatingAttributes)
		}
		again = len(s.PullDeliverableResults(false, libunlynx.CipherText{}))
	}
	for g, v := range want {
		exp = append(exp, fmt.Sprint([]int64{g}, v))
	}
	if a, b := strings.Join(sortedS(got), ";"), strings.Join(sortedS(exp), ";"); a != b {
		x.Failf("operation %d with %d elements in %d groups of %d attributes: the store gives %s instead of %s", op, n, ng, na, a, b)
	}
	if again > 0 {
		x.Failf("operation %d: %d elements are given twice", op, again)
	}
	x.Obs("%d %d %d %d", op, n, ng, na)
}

// c19Large: many responses and many attributes.
func c19Large(x *engine.X) {
	n := largeSizes(x)
	verifreset.Set("VPARALLELIZE", x.PickI("chunk", 100, 3))
	na := x.PickI("attributes", 1, 2, 11, 33, 310)
	if na > 11 && n > 12 {
		return
	}
	ng := []int{1, 7, n}[x.Choose(3, "groups")]
	w := x.Choose(3, "without, some and only rows that match")
	order := x.Bool("groups apart")
	var rows []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		g := int64(i % ng)
		if order {
			g = int64(i * ng / n)
		}
		f := []int64{}
		if w > 0 {
			f = []int64{1, int64(1 + i%2)}
			if w == 1 && i%3 == 1 {
				f[i%2] = 0
			}
		}
		var gs, a []int64
		for j := 0; j < na; j++ {
			gs, a = append(gs, 5), append(a, int64((i+1)*(j+1)))
		}
		gs[na-1] = g
		rows = append(rows, libunlynx.DpClearResponse{GroupByClear: mapFrom("g", 0, gs[:na/2]), GroupByEnc: mapFrom("g", na/2, gs[na/2:]), WhereEnc: mapFrom("w", 0, f),
			AggregatingAttributesClear: mapFrom("s", 0, a[:na/3]), AggregatingAttributesEnc: mapFrom("s", na/3, a[na/3:])})
	}
	before := []string{}
	for _, r := range rows {
		before = append(before, clearString(r))
	}
	want := refClear(rows)
	checkClear(x, "aggregation in clear", rows, libunlynxstore.AddInClear(rows), want)
	for i, r := range rows {
		if clearString(r) != before[i] {
			x.Failf("aggregation changed the input response %s to %s", before[i], clearString(r))
			return
		}
	}
	x.Obs("%d %d %d %d", n, na, ng, w)
}

// c20Large: many providers, responses and attributes.
func c20Large(x *engine.X) {
	verifreset.Set("VPARALLELIZE", x.PickI("chunk", 100, 3))
	np := x.PickI("providers", 1, 3, 12)
	n := x.PickI("responses", 1, 13, 101)
	na := x.PickI("attributes", 1, 3, 11, 33, 310)
	if na > 11 && n > 13 || na > 33 && n > 1 {
		return
	}
	v := int64(0)
	sh := shape{na / 2, na - na/2, na / 3, na - na/3, na - 1, 1}
	data := map[string][]libunlynx.DpClearResponse{}
	var all []libunlynx.DpClearResponse
	for p := 0; p < np; p++ {
		for i := 0; i < n; i++ {
			r := sh.row(func() int64 { v++; return 1 + v%3 })
			for j := 0; j < na; j++ {
				m := r.GroupByClear
				if j >= sh.gc {
					m = r.GroupByEnc
				}
				m[sprintf("g%d", j)] = int64((i + p*j) % 13 * 9)
			}
			for nm := range r.AggregatingAttributesClear {
				r.AggregatingAttributesClear[nm] = v * v
			}
			for nm := range r.AggregatingAttributesEnc {
				r.AggregatingAttributesEnc[nm] = -v
			}
			if i%4 == 3 {
				r.WhereEnc[sprintf("w%d", na-1)] = 0
			}
			data[sprintf("%d", p)] = append(data[sprintf("%d", p)], r)
			all = append(all, r)
		}
	}
	rep := x.PickI("repetitions", 1, 5)
	op := x.Choose(6, "operation")
	if op > 3 && (rep > 1 || n == 101) {
		return
	}
	switch op {
	case 4, 5: // groups of the given types, listed or as generated data
		types := make([]int64, na)
		total := 1
		for i := range types {
			types[i] = 1
			if i < 7 {
				types[i] = 2
			}
			if na < 11 {
				types[i] = int64(n - 2*i)
				if n == 1 {
					types[i] = int64(2*i + 3)
				}
			}
			total *= int(types[i])
		}
		if op == 4 {
			groups := [][]int64{}
			dataunlynx.AllPossibleGroups(types, make([]int64, 0), 0, &groups)
			checkGroups(x, types, groups, total)
			break
		}
		d, err := dataunlynx.GenerateData(int64(np), int64(total), int64(total-1), int64(sh.gc), int64(sh.ge), int64(sh.wc), int64(sh.we), int64(sh.ac), int64(sh.ae), types, false)
		if !need(x, err, "generating") {
			return
		}
		for p := 0; p < np; p++ {
			rows := d[sprintf("%d", p)]
			if len(d) != np || len(rows) != total {
				x.Failf("provider %d of %d has %d responses instead of %d", p, len(d), len(rows), total)
				return
			}
			groups := [][]int64{}
			for i, r := range rows {
				g := []int64{}
				for j := 0; j < na; j++ {
					g = append(g, valueOf(sprintf("g%d", j), r.GroupByClear, r.GroupByEnc))
					if w := valueOf(sprintf("w%d", j), r.WhereClear, r.WhereEnc); (w == 1) != (i < total-1) || w < 0 || w > 1 {
						x.Failf("types %v: response %d of %d has the filter value %d", types, i, total, w)
						return
					}
				}
				groups = append(groups, g)
			}
			checkGroups(x, types, groups, total)
		}
	case 0:
		dir := scratch(x)
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "d.txt")
		if !need(x, dataunlynx.WriteDataToFile(f, data), "writing") {
			return
		}
		got, err := dataunlynx.ReadDataFromFile(f)
		if !need(x, err, "reading") {
			return
		}
		if len(got) != np {
			x.Failf("%d providers written, %d read", np, len(got))
		}
		for id, rows := range data {
			if len(got[id]) != n {
				x.Failf("provider %q: %d responses written, %d read", id, n, len(got[id]))
				return
			}
			for j := range rows {
				if clearString(rows[j]) != clearString(got[id][j]) {
					x.Failf("provider %q: wrote %s, read %s", id, clearString(rows[j]), clearString(got[id][j]))
					return
				}
			}
		}
	case 1, 2:
		var scaled []libunlynx.DpClearResponse
		for _, r := range all {
			s := r
			s.AggregatingAttributesClear, s.AggregatingAttributesEnc = map[string]int64{}, map[string]int64{}
			for k, e := range r.AggregatingAttributesClear {
				s.AggregatingAttributesClear[k] = e * int64(rep)
			}
			for k, e := range r.AggregatingAttributesEnc {
				s.AggregatingAttributesEnc[k] = e * int64(rep)
			}
			scaled = append(scaled, s)
		}
		want := refClear(scaled)
		if op == 2 {
			want = map[string]string{}
			for i, r := range refRows(scaled) {
				want[sprintf("%d", i)] = clearString(libunlynx.DpClearResponse{GroupByClear: join(r.GroupByClear, r.GroupByEnc), AggregatingAttributesClear: join(r.AggregatingAttributesClear, r.AggregatingAttributesEnc)})
			}
		}
		checkClear(x, "expected result", all, dataunlynx.ComputeExpectedResult(data, rep, op == 2), want)
	case 3:
		a := append([]libunlynx.DpClearResponse{}, all...)
		b := append([]libunlynx.DpClearResponse{}, all[len(all)/2:]...)
		b = append(b, all[:len(all)/2]...)
		if !dataunlynx.CompareClearResponses(a, b) {
			x.Failf("a list of %d results is not equal to itself in another order", len(a))
		}
		for _, i := range []int{0, len(b) / 2, len(b) - 1} {
			r := b[i]
			b[i].AggregatingAttributesEnc = join(r.AggregatingAttributesEnc, nil)
			b[i].AggregatingAttributesEnc[sprintf("s%d", na-1)]++
			if dataunlynx.CompareClearResponses(a, b) {
				x.Failf("lists of %d results that differ in number %d are equal", len(a), i)
			}
			b[i] = r
		}
		if dataunlynx.CompareClearResponses(a, b[1:]) || dataunlynx.CompareClearResponses(a[1:], b) || len(a) > 1 && dataunlynx.CompareClearResponses(a, append(append([]libunlynx.DpClearResponse{}, a[1:]...), a[1])) {
			x.Failf("lists of %d results with missing results are equal", len(a))
		}
	}
	x.Obs("%d %d %d %d %d", op, np, n, na, rep)
}
