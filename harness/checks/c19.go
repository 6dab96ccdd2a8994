package checks

import (
	"fmt"
	"math"
	"strings"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C19"] = Info{Level: "model_checking", Rule: "every list (hence every order) of up to 3 (4 thorough) clear responses with 0..2 grouping, 0..2 filtering and 1..2 (or many) summed attributes split in every way between the clear and encrypted parts, values from a set with 0, negative and multi-digit numbers; the result is compared with the sums computed by the harness. Grouping keys: every pair of short number lists.",
		Assume: []string{"all responses of one list have the same attributes (one survey)", "a response with a filtering value of 0 (not matching) is left out, as documented in the code"}}
	engine.Register(&engine.Scenario{Name: "c19-clear", Prop: "C19", Run: c19Clear})
	engine.Register(&engine.Scenario{Name: "c19-wide", Prop: "C19", Run: c19Wide})
	engine.Register(&engine.Scenario{Name: "c19-key", Prop: "C19", Run: c19Key})
	engine.Register(&engine.Scenario{Name: "c19-map", Prop: "C19", Run: c19Map})
}

// clearKey is the canonical form of the grouping and filtering values.
func clearKey(r libunlynx.DpClearResponse) string {
	return fmt.Sprint(r.GroupByClear, r.GroupByEnc, r.WhereClear, r.WhereEnc)
}

func nonNil(m map[string]int64) map[string]int64 {
	if m == nil {
		return map[string]int64{}
	}
	return m
}

func clearString(r libunlynx.DpClearResponse) string {
	return fmt.Sprint(nonNil(r.GroupByClear), nonNil(r.GroupByEnc), nonNil(r.WhereClear), nonNil(r.WhereEnc), nonNil(r.AggregatingAttributesClear), nonNil(r.AggregatingAttributesEnc))
}

// refClear is the reference aggregation.
func refClear(rows []libunlynx.DpClearResponse) map[string]string {
	type acc struct{ r libunlynx.DpClearResponse }
	m := map[string]*acc{}
	for _, r := range rows {
		drop := false
		for _, w := range []map[string]int64{r.WhereClear, r.WhereEnc} {
			for _, v := range w {
				drop = drop || v == 0
			}
		}
		if drop {
			continue
		}
		k := clearKey(r)
		a, ok := m[k]
		if !ok {
			a = &acc{libunlynx.DpClearResponse{GroupByClear: r.GroupByClear, GroupByEnc: r.GroupByEnc, WhereClear: r.WhereClear, WhereEnc: r.WhereEnc, AggregatingAttributesClear: map[string]int64{}, AggregatingAttributesEnc: map[string]int64{}}}
			m[k] = a
		}
		for n, v := range r.AggregatingAttributesClear {
			a.r.AggregatingAttributesClear[n] += v
		}
		for n, v := range r.AggregatingAttributesEnc {
			a.r.AggregatingAttributesEnc[n] += v
		}
	}
	out := map[string]string{}
	for k, a := range m {
		out[k] = clearString(a.r)
	}
	return out
}

func checkClear(x *engine.X, what string, rows, got []libunlynx.DpClearResponse, want map[string]string) {
	var g, w []string
	for _, r := range got {
		g = append(g, clearString(r))
	}
	for _, s := range want {
		w = append(w, s)
	}
	if strings.Join(sortedS(g), "\n") != strings.Join(sortedS(w), "\n") {
		var in []string
		for _, r := range rows {
			in = append(in, clearString(r))
		}
		x.Failf("%s of\n%s\ngives\n%s\nexpected\n%s", what, strings.Join(in, "\n"), strings.Join(sortedS(g), "\n"), strings.Join(sortedS(w), "\n"))
	}
}

func mapFrom(pre string, start int, vs []int64) map[string]int64 {
	if len(vs) == 0 {
		return nil
	}
	m := map[string]int64{}
	for i, v := range vs {
		m[fmt.Sprintf("%s%d", pre, start+i)] = v
	}
	return m
}

func c19Clear(x *engine.X) {
	verifreset.Set("VPARALLELIZE", x.PickI("chunk", 1, 100))
	ng, nw, na := x.Int(0, 2, "grouping"), x.Int(0, 2, "where"), x.Int(1, 2, "sums")
	gc, wc, ac := x.Int(0, ng, "clear grouping"), x.Int(0, nw, "clear where"), x.Int(0, na, "clear sums")
	gv, wv := []int64{0, 1, 10, -1}, []int64{1, 0, 10, 11}
	n := x.Int(0, 2, "rows")
	if ng+nw <= 2 {
		n = x.Int(n, 3, "more rows")
		if ng+nw == 2 {
			gv, wv = []int64{1, 10}, []int64{1, 0, 10}
			if n == 3 && !x.Thorough() {
				wv = wv[1:]
			}
		}
	} else {
		gv, wv = []int64{1, 11}, []int64{1, 0}
		if !x.Thorough() && ng+nw == 4 {
			wv = []int64{10, 0}
			gv = []int64{1, 11}
		}
	}
	if n < 2 || n == 2 && ng+nw == 1 {
		gv, wv = append(gv, math.MaxInt64, math.MinInt64, -math.MaxInt64), append(wv, math.MaxInt64, math.MinInt64, -1)
	}
	var rows []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		g, w, a := make([]int64, ng), make([]int64, nw), make([]int64, na)
		for j := range g {
			g[j] = x.Pick64("g", gv...)
		}
		for j := range w {
			w[j] = x.Pick64("w", wv...)
		}
		for j := range a {
			a[j] = int64(1+2*j) << uint(8*i)
			if i == 1 && j == 0 {
				a[j] = -a[j]
			}
		}
		rows = append(rows, libunlynx.DpClearResponse{GroupByClear: mapFrom("g", 0, g[:gc]), GroupByEnc: mapFrom("g", gc, g[gc:]), WhereClear: mapFrom("w", 0, w[:wc]), WhereEnc: mapFrom("w", wc, w[wc:]), AggregatingAttributesClear: mapFrom("s", 0, a[:ac]), AggregatingAttributesEnc: mapFrom("s", ac, a[ac:])})
	}
	want := refClear(rows)
	var before []string
	for _, r := range rows {
		before = append(before, clearString(r))
	}
	got := libunlynxstore.AddInClear(rows)
	checkClear(x, "aggregation in clear", rows, got, want)
	for i, r := range rows {
		if clearString(r) != before[i] {
			x.Failf("aggregation changed the input response %s to %s", before[i], clearString(r))
		}
	}
	x.Obs("%d rows %d groups", n, len(want))
}

// c19Wide: numbers of summed attributes around the work-split size.
func c19Wide(x *engine.X) {
	c := x.PickI("chunk", 1, 2, 3)
	verifreset.Set("VPARALLELIZE", c)
	na := x.Int(0, 8, "sums")
	ac := x.Int(0, na, "clear sums")
	n := x.Int(1, 4, "rows")
	var rows []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		a := make([]int64, na)
		for j := range a {
			a[j] = int64(j+1) << uint(8*i)
		}
		g := x.Pick64("g", 1, 2)
		rows = append(rows, libunlynx.DpClearResponse{GroupByClear: mapFrom("g", 0, []int64{g}), AggregatingAttributesClear: mapFrom("s", 0, a[:ac]), AggregatingAttributesEnc: mapFrom("s", ac, a[ac:])})
	}
	want := refClear(rows)
	checkClear(x, "aggregation in clear", rows, libunlynxstore.AddInClear(rows), want)
}

// c19Key: two lists of numbers have the same grouping key exactly when they are equal.
func c19Key(x *engine.X) {
	vs := []int64{0, 1, 11, 10, -1, 100, 1 << 40}
	mk := func() []int64 {
		r := make([]int64, x.Int(0, 3, "length"))
		for i := range r {
			if len(r) == 3 {
				r[i] = x.Pick64("value", vs[:3+boolInt(x.Thorough())]...)
			} else {
				r[i] = x.Pick64("value", vs...)
			}
		}
		return r
	}
	a, b := mk(), mk()
	if (libunlynx.Key(a) == libunlynx.Key(b)) != eqInts(a, b) {
		x.Failf("Key(%v)=%q, Key(%v)=%q", a, libunlynx.Key(a), b, libunlynx.Key(b))
	}
	u, err := libunlynx.UnKey(libunlynx.Key(a))
	if err != nil || !eqInts(u, a) {
		x.Failf("UnKey(Key(%v)) = %v (%v)", a, u, err)
	}
}

// c19Map: the encrypted counterpart, AddInMap.
func c19Map(x *engine.X) {
	useToy(19)
	verifreset.Set("VPARALLELIZE", 2)
	k, pub := libunlynx.GenKey()
	n := x.Int(0, 4, "rows")
	na := x.Int(0, 3, "sums")
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	want := map[string][]int64{}
	var in []libunlynx.FilteredResponse
	var before []string
	for i := 0; i < n; i++ {
		g := x.Pick64("g", 1, 2, 3)
		v := make([]int64, na)
		for j := range v {
			v[j] = int64(j+1) << uint(8*i)
			if i == 1 {
				v[j] = -v[j]
			}
		}
		f := libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{g}), AggregatingAttributes: *libunlynx.EncryptIntVector(pub, v)}
		in = append(in, f)
		before = append(before, frString(k, f))
		key := fmt.Sprint(g)
		libunlynx.AddInMap(m, libunlynx.GroupingKey(key), f)
		if old, ok := want[key]; ok {
			for j := range v {
				v[j] += old[j]
			}
		}
		want[key] = v
	}
	if len(m) != len(want) {
		x.Failf("%d groups, expected %d", len(m), len(want))
	}
	for key, v := range want {
		f := m[libunlynx.GroupingKey(key)]
		if e := fmt.Sprintf("g[%s] a%v", key, v); frString(k, f) != e {
			x.Failf("group %s has %s, expected %s", key, frString(k, f), e)
		}
	}
	for i := range in {
		if frString(k, in[i]) != before[i] {
			x.Failf("adding changed an added response from %s to %s", before[i], frString(k, in[i]))
		}
	}
}
