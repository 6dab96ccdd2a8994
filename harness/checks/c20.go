package checks

import (
	"fmt"
	"os"
	"path/filepath"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C20"] = Info{Level: "model_checking", Rule: "every small data set (0..3 providers with 0..2 responses of every attribute shape) through the file and back; every list of group types up to length 4; every shape of generated data; every small data set x repetitions through the expected result; every pair of result lists up to length 3 over an alphabet through the comparison.",
		Assume: []string{"provider names without line breaks, attributes of one kind are numbered without gaps (the toolkit's own naming)"}}
	engine.Register(&engine.Scenario{Name: "c20-file", Prop: "C20", Run: c20File})
	engine.Register(&engine.Scenario{Name: "c20-groups", Prop: "C20", Run: c20Groups})
	engine.Register(&engine.Scenario{Name: "c20-generate", Prop: "C20", Run: c20Generate})
	engine.Register(&engine.Scenario{Name: "c20-expected", Prop: "C20", Run: c20Expected})
	engine.Register(&engine.Scenario{Name: "c20-compare", Prop: "C20", Run: c20Compare})
}

func scratch(x *engine.X) string {
	d, err := os.MkdirTemp("", "verifc20")
	if err != nil {
		panic(err)
	}
	return d
}

type shape struct{ gc, ge, wc, we, ac, ae int }

func (s shape) row(val func() int64) libunlynx.DpClearResponse {
	mk := func(n int) []int64 {
		r := make([]int64, n)
		for i := range r {
			r[i] = val()
		}
		return r
	}
	return libunlynx.DpClearResponse{GroupByClear: mapFrom("g", 0, mk(s.gc)), GroupByEnc: mapFrom("g", s.gc, mk(s.ge)), WhereClear: mapFrom("w", 0, mk(s.wc)), WhereEnc: mapFrom("w", s.wc, mk(s.we)), AggregatingAttributesClear: mapFrom("s", 0, mk(s.ac)), AggregatingAttributesEnc: mapFrom("s", s.ac, mk(s.ae))}
}

func c20File(x *engine.X) {
	max := 1
	if x.Thorough() {
		max = 2
	}
	dir := scratch(x)
	defer os.RemoveAll(dir)
	sh := shape{x.Int(0, max, "gc"), x.Int(0, max, "ge"), x.Int(0, max, "wc"), x.Int(0, max, "we"), x.Int(0, max, "ac"), x.PickI("ae", 0, 1, 11)}
	np := x.Int(0, 2, "providers")
	ids := []string{"0", "dp 1"}
	if sh.gc+sh.wc+sh.ac == 0 && sh.ge == 1 && np > 0 {
		ids = [][]string{ids, {"", " "}, {" a ", "a"}, {"#", "##"}, {"1 2", "A"}, {"a", "A"}}[x.Choose(6, "names")]
	}
	off := x.Choose(3, "values")
	vals := []int64{0, -1, 1 << 62, 7, 12, -1 << 63, 3, 100}
	i := off
	val := func() int64 { i++; return vals[i%len(vals)] }
	data := map[string][]libunlynx.DpClearResponse{}
	for p := 0; p < np; p++ {
		var rows []libunlynx.DpClearResponse
		n := x.Int(0, 2, "responses")
		for j := 0; j < n; j++ {
			rows = append(rows, sh.row(val))
		}
		data[ids[p]] = rows
	}
	f := filepath.Join(dir, "d.txt")
	if x.Bool("file exists") {
		os.WriteFile(f, []byte("#old\n1 \n1 \n1 \n1 \n1 \n1 \n#older\n"), 0600)
	}
	if err := dataunlynx.WriteDataToFile(f, data); err != nil {
		x.Failf("writing fails: %v", err)
		return
	}
	got, err := dataunlynx.ReadDataFromFile(f)
	if err != nil {
		x.Failf("reading fails: %v", err)
		return
	}
	if len(got) != len(data) {
		x.Failf("%d providers written, %d read", len(data), len(got))
	}
	for id, rows := range data {
		g, ok := got[id]
		if !ok || len(g) != len(rows) {
			x.Failf("provider %q: %d responses written, %d read (%v)", id, len(rows), len(g), ok)
			return
		}
		for j := range rows {
			if clearString(rows[j]) != clearString(g[j]) {
				x.Failf("provider %q: wrote %s, read %s", id, clearString(rows[j]), clearString(g[j]))
			}
		}
	}
	if _, err := dataunlynx.ReadDataFromFile(filepath.Join(dir, "none")); err == nil {
		x.Failf("reading a file that does not exist reports no error")
	}
}

func c20Groups(x *engine.X) {
	max := int64(3)
	n := x.Int(0, 4, "attributes")
	types := make([]int64, n)
	total := 1
	for i := range types {
		types[i] = int64(x.Choose(int(max)+1, "type"))
		total *= int(types[i])
	}
	orig := append([]int64{}, types...)
	groups := make([][]int64, 0)
	dataunlynx.AllPossibleGroups(types, make([]int64, 0, x.PickI("capacity", 0, 4)), 0, &groups)
	checkGroups(x, orig, groups, total)
	if !eqInts(orig, types) {
		x.Failf("the group types changed to %v", types)
	}
}

func checkGroups(x *engine.X, types []int64, groups [][]int64, total int) {
	seen := map[string]bool{}
	for _, g := range groups {
		if len(g) != len(types) {
			x.Failf("types %v: group %v", types, g)
			return
		}
		for i := range g {
			if g[i] < 0 || g[i] >= types[i] {
				x.Failf("types %v: group %v is out of range", types, g)
			}
		}
		if seen[fmt.Sprint(g)] {
			x.Failf("types %v: group %v occurs twice", types, g)
		}
		seen[fmt.Sprint(g)] = true
	}
	if len(groups) != total {
		x.Failf("types %v: %d groups instead of %d", types, len(groups), total)
	}
}

func c20Generate(x *engine.X) {
	dps := int64(x.Int(0, 3, "providers"))
	sh := shape{x.Int(0, 2, "gc"), x.Int(0, 1, "ge"), x.Int(0, 1, "wc"), x.Int(0, 2, "we"), x.Int(0, 1, "ac"), x.Int(0, 2, "ae")}
	ng := sh.gc + sh.ge
	delta := x.PickI("type count error", 0, 1, -1)
	if ng+delta < 0 {
		delta = 0
	}
	types := make([]int64, ng+delta)
	total := int64(1)
	for i := range types {
		types[i] = int64(x.Int(1, 3, "type"))
		total *= types[i]
	}
	rnd := x.Bool("random groups")
	var entries int64
	if rnd {
		entries = int64(x.Int(0, 3, "entries"))
	} else {
		entries = total + int64(x.PickI("entries error", 0, 1, -1))
	}
	filtered := int64(x.Int(0, int(entries)+1, "filtered"))
	if filtered > 3 {
		filtered = entries
	}
	// arguments that fail are reported, not produced
	bad := delta != 0 || (!rnd && entries != total)
	got, err := dataunlynx.GenerateData(dps, entries, filtered, int64(sh.gc), int64(sh.ge), int64(sh.wc), int64(sh.we), int64(sh.ac), int64(sh.ae), types, rnd)
	if bad {
		if err == nil {
			x.Failf("types %v for %d grouping attributes, %d entries for %d groups (random %v): no error", types, ng, entries, total, rnd)
		}
		return
	}
	if err != nil {
		x.Failf("generation fails: %v", err)
		return
	}
	if len(got) != int(dps) {
		x.Failf("%d providers instead of %d", len(got), dps)
	}
	for p := int64(0); p < dps; p++ {
		rows, ok := got[fmt.Sprint(p)]
		if !ok || len(rows) != int(entries) {
			x.Failf("provider %d has %d responses instead of %d", p, len(rows), entries)
			return
		}
		var groups [][]int64
		for j, r := range rows {
			var g []int64
			bad := len(r.GroupByClear) != sh.gc || len(r.GroupByEnc) != sh.ge || len(r.WhereClear) != sh.wc || len(r.WhereEnc) != sh.we || len(r.AggregatingAttributesClear) != sh.ac || len(r.AggregatingAttributesEnc) != sh.ae
			at := func(pre string, i, nc int, c, e map[string]int64, lo, hi int64) {
				m := c
				if i >= nc {
					m = e
				}
				v, ok := m[fmt.Sprintf("%s%d", pre, i)]
				if !ok || v < lo || v > hi {
					bad = true
				}
				if pre == "g" {
					g = append(g, v)
				}
			}
			for i := 0; i < ng; i++ {
				at("g", i, sh.gc, r.GroupByClear, r.GroupByEnc, 0, types[i]-1)
			}
			w := int64(0)
			if int64(j) < filtered {
				w = 1
			}
			for i := 0; i < sh.wc+sh.we; i++ {
				at("w", i, sh.wc, r.WhereClear, r.WhereEnc, w, w)
			}
			for i := 0; i < sh.ac+sh.ae; i++ {
				at("s", i, sh.ac, r.AggregatingAttributesClear, r.AggregatingAttributesEnc, 0, 1)
			}
			if bad {
				x.Failf("shape %+v types %v entries %d filtered %d: response %d is %s", sh, types, entries, filtered, j, clearString(r))
				return
			}
			groups = append(groups, g)
		}
		if !rnd {
			checkGroups(x, types, groups, int(total))
		}
	}
}

func c20Expected(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 2)
	sh := shape{x.Int(0, 1, "gc"), x.Int(0, 1, "ge"), x.Int(0, 1, "wc"), x.Int(0, 1, "we"), x.Int(0, 1, "ac"), x.Int(1, 2, "ae")}
	rep := x.PickI("repetitions", 0, 1, 2, 3)
	clear := x.Bool("clear")
	if sh.gc+sh.ge+sh.wc+sh.we > 2 && !x.Thorough() {
		rep, clear = 2, true
	}
	np := x.Int(0, 2, "providers")
	data := map[string][]libunlynx.DpClearResponse{}
	var all []libunlynx.DpClearResponse
	n := 0
	for p := 0; p < np; p++ {
		var rows []libunlynx.DpClearResponse
		k := x.Int(0, 2, "responses")
		if np == 2 && k == 2 && p == 1 && !x.Thorough() {
			k = 1
		}
		for j := 0; j < k; j++ {
			r := sh.row(func() int64 { return 0 })
			for name := range r.GroupByClear {
				r.GroupByClear[name] = x.Pick64("g", 0, 10)
			}
			for name := range r.GroupByEnc {
				r.GroupByEnc[name] = x.Pick64("g", 0, 1)
			}
			for name := range r.WhereClear {
				r.WhereClear[name] = x.Pick64("w", 0, 1)
			}
			for name := range r.WhereEnc {
				r.WhereEnc[name] = x.Pick64("w", 0, 1)
			}
			for i := 0; i < sh.ac+sh.ae; i++ {
				m := r.AggregatingAttributesClear
				if i >= sh.ac {
					m = r.AggregatingAttributesEnc
				}
				m[fmt.Sprintf("s%d", i)] = int64(i+1) << uint(6*n)
			}
			n++
			rows = append(rows, r)
		}
		data[fmt.Sprint(p)] = rows
		all = append(all, rows...)
	}
	// the reference: every response counted rep times
	mult := int64(rep)
	if mult < 1 {
		mult = 1
	}
	var scaled []libunlynx.DpClearResponse
	var before []string
	for _, r := range all {
		before = append(before, clearString(r))
		s := r
		s.AggregatingAttributesClear, s.AggregatingAttributesEnc = map[string]int64{}, map[string]int64{}
		for k, v := range r.AggregatingAttributesClear {
			s.AggregatingAttributesClear[k] = v * mult
		}
		for k, v := range r.AggregatingAttributesEnc {
			s.AggregatingAttributesEnc[k] = v * mult
		}
		scaled = append(scaled, s)
	}
	want := refClear(scaled)
	if clear {
		ref := refRows(scaled)
		want = map[string]string{}
		for i, r := range ref {
			want[fmt.Sprint(i)] = clearString(libunlynx.DpClearResponse{GroupByClear: join(r.GroupByClear, r.GroupByEnc), AggregatingAttributesClear: join(r.AggregatingAttributesClear, r.AggregatingAttributesEnc)})
		}
	}
	for round := 0; round < 2; round++ {
		got := dataunlynx.ComputeExpectedResult(data, rep, clear)
		checkClear(x, fmt.Sprintf("expected result (repetitions %d, clear %v, call %d)", rep, clear, round+1), all, got, want)
		for i, r := range all {
			if clearString(r) != before[i] {
				x.Failf("computing the expected result changed the data from %s to %s", before[i], clearString(r))
			}
		}
	}
}

func join(a, b map[string]int64) map[string]int64 {
	m := map[string]int64{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

// refRows is refClear as responses.
func refRows(rows []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
	var out []libunlynx.DpClearResponse
	idx := map[string]int{}
	for _, r := range rows {
		drop := false
		for _, w := range []map[string]int64{r.WhereClear, r.WhereEnc} {
			for _, v := range w {
				drop = drop || v == 0
			}
		}
		if drop {
			continue
		}
		k := clearKey(r)
		i, ok := idx[k]
		if !ok {
			c := r
			c.AggregatingAttributesClear, c.AggregatingAttributesEnc = join(r.AggregatingAttributesClear, nil), join(r.AggregatingAttributesEnc, nil)
			idx[k] = len(out)
			out = append(out, c)
			continue
		}
		for n, v := range r.AggregatingAttributesClear {
			out[i].AggregatingAttributesClear[n] += v
		}
		for n, v := range r.AggregatingAttributesEnc {
			out[i].AggregatingAttributesEnc[n] += v
		}
	}
	return out
}

func c20Compare(x *engine.X) {
	one := func(g, w, a map[string]int64, enc bool) libunlynx.DpClearResponse {
		if enc {
			return libunlynx.DpClearResponse{GroupByEnc: g, WhereEnc: w, AggregatingAttributesEnc: a}
		}
		return libunlynx.DpClearResponse{GroupByClear: g, WhereClear: w, AggregatingAttributesClear: a, GroupByEnc: map[string]int64{}}
	}
	alpha := []libunlynx.DpClearResponse{
		one(mapFrom("g", 0, []int64{1}), nil, mapFrom("s", 0, []int64{1}), false),
		one(mapFrom("g", 0, []int64{1}), map[string]int64{}, mapFrom("s", 0, []int64{2}), false),
		one(mapFrom("g", 0, []int64{1}), nil, mapFrom("s", 0, []int64{1}), true),
		one(nil, mapFrom("w", 0, []int64{1}), mapFrom("s", 0, []int64{1}), false),
		{},
	}
	if x.Thorough() {
		alpha = append(alpha, one(mapFrom("g", 0, []int64{2}), nil, mapFrom("s", 0, []int64{1}), false), one(mapFrom("g", 0, []int64{1, 2}), nil, mapFrom("s", 0, []int64{1}), false), one(nil, mapFrom("w", 0, []int64{1}), mapFrom("s", 0, []int64{1}), true))
	}
	mk := func() ([]libunlynx.DpClearResponse, []string) {
		n := x.Int(0, 3, "length")
		var r []libunlynx.DpClearResponse
		var s []string
		for i := 0; i < n; i++ {
			e := alpha[x.Choose(len(alpha), "response")]
			r = append(r, e)
			s = append(s, clearString(e))
		}
		return r, s
	}
	a, as := mk()
	b, bs := mk()
	want := fmt.Sprint(sortedS(as)) == fmt.Sprint(sortedS(bs))
	if got := dataunlynx.CompareClearResponses(a, b); got != want {
		x.Failf("comparing %v with %v gives %v", as, bs, got)
	}
}
