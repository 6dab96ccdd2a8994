package checks

import (
	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C01"] = Info{Level: "model_checking", Rule: "whole surveys through the client API and the real services: every query shape (grouping, filtering, sums, count), every placement of clear and encrypted attributes per provider, every small data set over a row alphabet, every distribution over providers and servers, every querier server, with and without proofs; the decrypted answer is compared with the plaintext evaluation.",
		Assume: []string{"messages are delivered in the order of sending here (C02 explores the orders)", "toy group for the space, Ed25519 for a smaller one; the web socket layer is replaced by direct calls with the encoded messages"}}
	for _, s := range []struct {
		n   string
		run func(*engine.X)
	}{{"c01-shapes", c01Shapes}, {"c01-mix", c01Mix}, {"c01-data", c01Data}, {"c01-spread", c01Spread}, {"c01-wide", c01Wide}, {"c01-large", c01Large}, {"c01-servers", c01Servers}} {
		engine.Register(&engine.Scenario{Name: s.n, Prop: "C01", Run: s.run})
	}
}

func c01Do(x *engine.X, n, at int, q svQuery, dps []svDP, api bool) {
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.FIFO = true
		c.whole(x, "survey", at, q, dps, api)
	})
}

// c01Shapes: all query shapes.
func c01Shapes(x *engine.X) {
	n := x.Int(1, 3, "servers")
	ng, nw, ns := x.Int(0, 2, "group attributes"), x.Int(0, 2, "where attributes"), x.Int(1, 2, "sums")
	count := x.Bool("count")
	proofs := x.Bool("proofs")
	api := x.Bool("api")
	suiteSmall(x)
	if libunlynx.SuiTe == realSuite && (n != 2 || !api || ng != 1) {
		return
	}
	q := svQuery{sum: names("s", ns), groupBy: names("g", ng), count: count, proofs: proofs}
	if count {
		q.sum = append([]string{"count"}, q.sum...)
	}
	for i := 0; i < nw; i++ {
		q.where = append(q.where, svWhere{sprintf("w%d", i+1), int64(i + 1)})
	}
	q.pred, q.eval = eqPred(nw)
	if nw == 2 {
		switch x.Choose(4, "predicate") {
		case 3:
			q.pred, q.eval = "", nil
		case 1:
			q.pred, q.eval = "v0 == v1 || v2 != v3", func(v []string) bool { return v[0] == v[1] || v[2] != v[3] }
		case 2:
			q.pred, q.eval = "!(v0 == v1) && (v2 == v3 || v1 == v3)", func(v []string) bool { return v[0] != v[1] && (v[2] == v[3] || v[1] == v[3]) }
		}
	}
	at := x.Choose(n, "querier's server")
	var dps []svDP
	k := int64(0)
	for s := 0; s < n; s++ {
		if n == 3 && s == 1 {
			continue // a server without data
		}
		d := svDP{server: s, rep: 1}
		for i := 0; i < 3; i++ {
			k++
			g := []int64{k % 2, int64(s) * 7}[:ng]
			w := []int64{1 + int64(i)%2, 2 - int64(s+i)%3}[:nw]
			a := []int64{k * k, 3 * k}[:ns]
			enc := 0
			if s%2 == 1 {
				enc = 3
			}
			d.rows = append(d.rows, svRow(g, enc, w, enc, a, 1))
		}
		dps = append(dps, d)
	}
	c01Do(x, n, at, q, dps, api)
	x.Obs("%v %d %d", q, n, at)
}

// c01Mix: every placement of clear and encrypted attributes.
func c01Mix(x *engine.X) {
	useToy(1)
	same := x.Bool("both providers at one server")
	var dps []svDP
	for p := 0; p < 2; p++ {
		d := svDP{server: p, rep: 1}
		if same {
			d.server = 1
		}
		g, w, a := x.Choose(4, "group enc"), x.Choose(2, "where enc"), x.Choose(2, "sum enc")
		d.rows = append(d.rows,
			svRow([]int64{1, 2}, g, []int64{5}, w, []int64{int64(10 + p)}, a),
			svRow([]int64{1, 2}, g, []int64{5}, w, []int64{int64(100 + p)}, a),
			svRow([]int64{1, 3}, g, []int64{5}, w, []int64{int64(1000 + p)}, a),
			svRow([]int64{2, 1}, g, []int64{int64(5 + p)}, w, []int64{int64(2000 + p)}, a),
			svRow([]int64{1, 2}, g, []int64{6}, w, []int64{int64(3000 + p)}, a))
		dps = append(dps, d)
	}
	if same {
		// a third provider elsewhere
		dps = append(dps, svDP{server: 0, rep: 1, rows: dps[0].rows[:1]})
	}
	q := svQuery{sum: names("s", 1), groupBy: names("g", 2), where: []svWhere{{"w1", 5}}, proofs: x.Bool("proofs")}
	q.pred, q.eval = eqPred(1)
	c01Do(x, 2, 0, q, dps, false)
	x.Obs("%v", dps)
}

// c01Data: every small data set.
func c01Data(x *engine.X) {
	useToy(1)
	enc := x.Choose(3, "encrypted")
	hi := 2
	var dps []svDP
	v := int64(1)
	for p := 0; p < 2; p++ {
		d := svDP{server: p, rep: 1}
		n := x.Int(0, hi, "rows")
		for i := 0; i < n; i++ {
			k := int64(x.Choose(5, "row"))
			g, w := k%2, k/2
			a := v
			if k == 4 {
				g, w, a = 0, 0, -v // compensates
			}
			v *= 3
			e := 0
			if enc == 1 || enc == 2 && p == 1 {
				e = 1
			}
			d.rows = append(d.rows, svRow([]int64{g}, e, []int64{w}, e, []int64{a}, e))
		}
		if n == 0 && x.Bool("provider does not exist") {
			continue
		}
		dps = append(dps, d)
	}
	q := svQuery{sum: []string{"s1", "count"}, count: true, groupBy: names("g", 1), where: []svWhere{{"w1", 0}}}
	q.pred, q.eval = eqPred(1)
	if x.Bool("not") {
		q.pred, q.eval = "v0 != v1", func(v []string) bool { return v[0] != v[1] }
	}
	at := 0
	if enc == 0 || x.Thorough() {
		at = x.Choose(2, "querier's server")
	}
	c01Do(x, 2, at, q, dps, false)
	x.Obs("%v %s %d", dps, q.pred, at)
}

// c01Spread: every distribution of rows over providers and of providers over
// servers, numbers of servers, repetitions.
func c01Spread(x *engine.X) {
	useToy(1)
	hi, hip, hir := 3, 2, 3
	if x.Thorough() {
		hi, hip, hir = 4, 3, 4
	}
	n := x.Int(1, hi, "servers")
	ndp := x.Int(0, hip, "providers")
	var dps []svDP
	for p := 0; p < ndp; p++ {
		dps = append(dps, svDP{server: x.Choose(n, "server"), rep: x.Int(1, 2, "repetitions")})
	}
	rows := 0
	if ndp > 0 {
		rows = x.PickI("rows", 1, hir)
	}
	for i := 0; i < rows; i++ {
		d := &dps[x.Choose(ndp, "provider")]
		e := i % 2
		d.rows = append(d.rows, svRow([]int64{int64(i / 2)}, e, nil, 0, []int64{int64(i + 1), -int64(i)}, 2))
	}
	q := svQuery{sum: names("s", 2), groupBy: names("g", 1)}
	c01Do(x, n, 0, q, dps, false)
	x.Obs("%d %v", n, dps)
}

// c01Wide: many attributes, asked for in any order, some of those the data has
// only; the counter at every place; values of every size.
func c01Wide(x *engine.X) {
	suiteSmall(x)
	real := libunlynx.SuiTe == realSuite
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	size := []int{1, 2, 3, 11}[x.Choose(hi, "attributes")]
	if hi == 3 && size == 3 {
		size = 11
	}
	if real && size != 2 {
		return
	}
	pick := func(what, pre string) []string {
		l := names(pre, size)
		switch x.Choose(4, what) {
		case 1: // the other way round
			r := []string{}
			for _, e := range l {
				r = append([]string{e}, r...)
			}
			return r
		case 2: // without the first one
			return l[1:]
		case 3: // without the last one
			return l[:len(l)-1]
		}
		return l
	}
	q := svQuery{groupBy: pick("groups", "g")}
	order := x.Choose(4, "sums and filters")
	l := names("s", size)
	w := names("w", size)
	if order == 1 || order == 3 {
		for i := 0; i < size/2; i++ {
			l[i], l[size-1-i] = l[size-1-i], l[i]
			w[i], w[size-1-i] = w[size-1-i], w[i]
		}
	}
	if order >= 2 && size > 1 {
		l, w = l[1:], w[1:]
	}
	at := x.Choose(3, "counter")
	switch at {
	case 1:
		l = append(l, "count")
	case 2:
		l = append(l[:len(l)/2:len(l)/2], append([]string{"count"}, l[len(l)/2:]...)...)
	}
	q.sum, q.count = l, at > 0
	val := func(n string) int64 { // the value asked for
		return map[string]int64{"w1": 5, "w2": -5, "w3": 0, "w10": 1<<32 + 5, "w11": 1 << 40}[n]
	}
	for _, n := range w {
		q.where = append(q.where, svWhere{n, val(n)})
	}
	q.pred, q.eval = eqPred(len(w))
	masks := []int{0, 1<<uint(size) - 1, 0x555}
	neg, off := int64(-1), int64(20)
	if order == 0 { // the API decrypts non-negative results only
		neg, off = 4, -20
	}
	var dps []svDP
	for p := 0; p < 2; p++ {
		m := x.Choose(3, "encrypted")
		if real && !x.Thorough() && (at == 1 || m != (p+at)%3) {
			return
		}
		d := svDP{server: p, rep: 1}
		row := func(g0, gl, wx, wy, a int64) {
			var g, w, s []int64
			for i := 0; i < size; i++ {
				g, w, s = append(g, int64(i%3)), append(w, val(sprintf("w%d", i+1))), append(s, a*int64(i+1)-off)
			}
			g[size-1], g[0] = gl, g0
			w[0] += wx
			w[size-1] += wy
			d.rows = append(d.rows, svRow(g, masks[m], w, masks[(m+1)%3], s, masks[(m+2)%3]))
		}
		row(1, 2, 0, 0, 3)
		if p == 1 && order%2 == 1 { // the only row of its server
			dps = append(dps, d)
			continue
		}
		row(neg, 2, 0, 0, 50)
		row(1, 2*neg, 0, 0, 90)
		row(1, 2, 1<<32, 0, 150) // not selected if the attribute is asked for
		row(1, 2, 0, -1<<33, 301)
		row(1, 2+int64(p), 0, 0, 1)
		dps = append(dps, d)
	}
	c01Do(x, 2, 1, q, dps, order == 0)
	x.Obs("%d %v %v", size, q, dps)
}

// c01Large: numbers of rows around the size of a chunk.
func c01Large(x *engine.X) {
	useToy(1)
	sizes := []int{99, 100, 101, 201}
	if x.Thorough() {
		sizes = []int{1, 2, 50, 99, 100, 101, 102, 150, 199, 200, 201, 202, 301}
	}
	n := x.PickI("rows", sizes...)
	groups := x.Choose(3, "groups") // one, some, all different
	e := 3 * x.Choose(2, "encrypted")
	proofs := false
	where := x.Bool("where")
	if x.Bool("chunks of one") {
		verifreset.Set("VPARALLELIZE", 1)
	}
	q := svQuery{sum: []string{"s1", "s2"}, groupBy: names("g", 2), proofs: proofs}
	if where {
		q.where = []svWhere{{"w1", 1}}
		q.pred, q.eval = eqPred(1)
	}
	d := []svDP{{server: 0, rep: 1}, {server: 1, rep: 1}, {server: 0, rep: 1}}
	for i := 0; i < n; i++ {
		g := []int64{3, 4}
		switch groups {
		case 1:
			g = []int64{int64(i % 7), int64(i % 2)}
		case 2:
			g = []int64{int64(i / 10), int64(i)}
		}
		var w []int64
		if where {
			w = []int64{int64(i % 5 / 4)}
			if i%50 > 47 {
				w[0] = 1
			}
		}
		r := svRow(g, e, w, e, []int64{int64(i), int64(1 - i%3)}, e)
		d[0].rows = append(d[0].rows, r)
		if i%3 == 0 {
			d[1].rows = append(d[1].rows, r)
		}
		if i%40 == 7 {
			d[2].rows = append(d[2].rows, r)
		}
	}
	c01Do(x, 2, x.Choose(2, "querier's server"), q, d, false)
	x.Obs("%d %d %d %v", n, groups, e, where)
}

// c01Servers: more servers, data anywhere.
func c01Servers(x *engine.X) {
	useToy(1)
	hi := 6
	if x.Thorough() {
		hi = 8
	}
	n := x.Int(4, hi, "servers")
	at := x.Choose(n, "querier's server")
	a, b := x.Choose(n, "first provider"), x.Choose(n, "second provider")
	if !x.Thorough() && a < b {
		return
	}
	proofs := x.Bool("proofs")
	if proofs && (at != n-1 || !x.Thorough() && (a != b+1 || n > 5)) {
		return
	}
	e := 3 * x.Choose(2, "encrypted")
	if e == 3 && at != 1 {
		return
	}
	q := svQuery{sum: []string{"s1", "count"}, count: true, groupBy: names("g", 1), where: []svWhere{{"w1", 1}}, proofs: proofs}
	q.pred, q.eval = eqPred(1)
	d := []svDP{{server: a, rep: 1}, {server: b, rep: 3}}
	for i := range d {
		for j := int64(0); j < 4; j++ {
			d[i].rows = append(d[i].rows, svRow([]int64{j % 3, 0}[:1], e, []int64{1 - j/3}, e, []int64{10*j + int64(i)}, e))
		}
		d[i].rows = append(d[i].rows, svRow([]int64{7 + int64(i)}, 0, []int64{1}, 0, []int64{1}, 0))
	}
	c01Do(x, n, at, q, d, false)
	x.Obs("%d %d %d %d", n, at, a, b)
}
