package checks

import (
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/onet/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Attributes that a query names more than once, uploads that are alike.

func init() {
	engine.Register(&engine.Scenario{Name: "c01-repeated", Prop: "C01", Run: c01Repeated})
	engine.Register(&engine.Scenario{Name: "c01-names", Prop: "C01", Run: c01Names})
	engine.Register(&engine.Scenario{Name: "c01-zero", Prop: "C01", Run: c01Zero})
	engine.Register(&engine.Scenario{Name: "c15-uneven", Prop: "C15", Run: c15Uneven})
	engine.Register(&engine.Scenario{Name: "c03-same", Prop: "C03", Run: c03Same})
}

// c01Repeated: WHERE an attribute is one of several values (the attribute is
// listed once per value), groups and sums listing an attribute twice.
func c01Repeated(x *engine.X) {
	useToy(1)
	q := svQuery{}
	q.where = [][]svWhere{
		{{"w1", 1}, {"w1", 2}},
		{{"w1", 1}, {"w2", 1}, {"w1", 2}},
		{{"w1", 2}, {"w1", 2}},
		{{"w2", 2}, {"w1", 1}, {"w2", 1}, {"w1", 2}},
	}[x.Choose(4, "where")]
	n := len(q.where)
	// one of the listed values for each attribute that is listed, or for any of them
	any := x.Bool("any attribute")
	by := map[string][]string{}
	var order []string
	for i, w := range q.where {
		if by[w.name] == nil {
			order = append(order, w.name)
		}
		by[w.name] = append(by[w.name], sprintf("v%d == v%d", 2*i, 2*i+1))
	}
	var parts []string
	for _, a := range order {
		parts = append(parts, "("+strings.Join(by[a], " || ")+")")
	}
	op := " && "
	if any {
		op = " || "
	}
	q.pred = strings.Join(parts, op)
	q.eval = func(v []string) bool {
		ok := map[string]bool{}
		for i, w := range q.where {
			ok[w.name] = ok[w.name] || v[2*i] == v[2*i+1]
		}
		all, some := true, false
		for _, b := range ok {
			all, some = all && b, some || b
		}
		return n > 0 && (all && !any || some && any)
	}
	q.groupBy = [][]string{{"g1"}, {"g1", "g1"}, {"g2", "g1", "g2"}, {}}[x.Choose(4, "group by")]
	q.sum = [][]string{{"s1"}, {"s1", "s1"}, {"s1", "count", "s2", "s1"}}[x.Choose(3, "sum")]
	q.count = len(q.sum) == 4
	enc := []int{0, 3, 1, 2}[x.Choose(4, "encrypted")]
	d := []svDP{{server: 0, rep: 1}, {server: x.Choose(2, "second provider's server"), rep: 1}}
	a := int64(1)
	for _, p := range []int{0, 1} {
		for _, w := range [][]int64{{1, 1}, {2, 1}, {3, 2}, {1, 3}, {3, 3}} {
			d[p].rows = append(d[p].rows, svRow([]int64{w[0] % 2, 7 + int64(p)}, enc, w, enc, []int64{a, 1000 + a}, enc))
			a *= 2
		}
	}
	c01Do(x, 2, 0, q, d, false)
	x.Obs("%v %d", q, enc)
}

// c03Same: providers with the same data, down to the last bit.
func c03Same(x *engine.X) {
	useToy(3)
	k := x.Int(2, 4, "uploads")
	enc := x.Choose(3, "clear, encrypted, both") // rows
	once := x.Bool("the same message")
	other := x.Bool("another one in between")
	servers := x.Int(1, 2, "servers with data")
	when := x.Choose(3, "results asked for first, in between, last")
	rows := []libunlynx.DpClearResponse{}
	if enc != 1 {
		rows = append(rows, svRow([]int64{1}, 0, []int64{5}, 0, []int64{3}, 0), svRow([]int64{1}, 0, []int64{5}, 0, []int64{3}, 0))
	}
	if enc != 0 {
		rows = append(rows, svRow([]int64{1}, 1, []int64{5}, 1, []int64{7}, 1))
	}
	q := svQuery{sum: names("s", 1), groupBy: names("g", 1), where: []svWhere{{"w1", 5}}}
	q.pred, q.eval = eqPred(1)
	var dps []svDP
	var alike []bool
	for i := 0; i < k; i++ {
		dps, alike = append(dps, svDP{server: i % servers, rep: 1, rows: rows}), append(alike, true)
		if other {
			dps = append(dps, svDP{server: i % servers, rep: 1, rows: []libunlynx.DpClearResponse{svRow([]int64{1}, 0, []int64{5}, 0, []int64{int64(1000 << uint(i))}, 0)}})
			alike = append(alike, false)
			other = i == 0
		}
	}
	svCluster(x, 2, func(c *svc) {
		c.Hold()
		c.FIFO = true
		sid, err := c.create(0, q, dps)
		if err != nil {
			x.Failf("the survey cannot be created: %v", err)
			return
		}
		up, err := servicesunlynx.EncryptDataToSurvey("dp", sid, rows, c.Roster.Aggregate, 1, q.count)
		if err != nil {
			panic(err)
		}
		cl := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName)
		var r svResult
		var res *svCall
		for i, d := range dps {
			if when == i && when < 2 {
				res = c.start("results", c.results(0, sid, false, &r))
			}
			f := c.upload(sid, q, d)
			if once && alike[i] {
				f = func() error {
					return cl.SendProtobuf(c.Servers[d.server].ServerIdentity, up, &servicesunlynx.ServiceState{})
				}
			}
			if err := c.do("upload", f); err != nil {
				x.Failf("upload %d of %d announced ones fails: %v", i, len(dps), err)
				return
			}
		}
		if res == nil {
			res = c.start("results", c.results(0, sid, false, &r))
		}
		if !c.await(time.Hour, res) || res.result() != nil {
			x.Failf("no answer with %d uploads: %v", len(dps), res.result())
			return
		}
		r.compare(x, sprintf("%d uploads of which %d are the same", len(dps), k), q, dps)
	})
	x.Obs("%d %d %v %d %d %d", k, enc, once, len(dps), servers, when)
}

// c01Names: attributes whose names are alike, unusual or the same in different
// roles.
func c01Names(x *engine.X) {
	useToy(1)
	set := [][3][]string{
		{{"g1", "G1"}, {"w1", "W1"}, {"s1", "S1"}},
		{{"a", "b"}, {"a", "b"}, {"a", "b"}},
		{{"", "g"}, {"", "w"}, {"", "s"}},
		{{"a", "aa"}, {"aa", "a"}, {"a", "aa"}},
		{{"x,y", "x"}, {"x y", "x "}, {" x", "x"}},
		{{"g1", "count"}, {"count", "w"}, {"s1", "count"}},
		{{"\u00e9", "\u00c9"}, {"e", "\u00e9"}, {"\u00df", "ss"}},
		{{"0", "1"}, {"v0", "v1"}, {"1", "-1"}},
	}[x.Choose(8, "names")]
	enc := x.Choose(4, "encrypted")
	swap := x.Bool("asked for the other way round")
	only := x.Bool("only the first of them")
	two := x.Choose(2, "second provider's server")
	q := svQuery{}
	pick := func(l []string) []string {
		r := append([]string{}, l...)
		if swap {
			r[0], r[1] = r[1], r[0]
		}
		if only {
			r = r[:1]
		}
		return r
	}
	q.groupBy, q.sum = pick(set[0]), pick(set[2])
	for i, w := range pick(set[1]) {
		q.where = append(q.where, svWhere{w, int64(3 + i)})
	}
	q.pred, q.eval = eqPred(len(q.where))
	if set[2][1] == "count" {
		q.count = x.Bool("count")
	}
	mk := func(names []string, a, b int64) (c, e map[string]int64) {
		c, e = map[string]int64{}, map[string]int64{}
		for i, v := range []int64{a, b} {
			if enc>>uint(i)&1 == 1 {
				e[names[i]] = v
			} else {
				c[names[i]] = v
			}
		}
		return
	}
	d := []svDP{{server: 0, rep: 1}, {server: two, rep: 1}}
	a := int64(1)
	for p := range d {
		for _, w := range [][2]int64{{3, 4}, {4, 3}, {3, 3}, {3, 4}} {
			var r libunlynx.DpClearResponse
			r.GroupByClear, r.GroupByEnc = mk(set[0], 5+a%2, 6)
			r.WhereClear, r.WhereEnc = mk(set[1], w[0], w[1])
			r.AggregatingAttributesClear, r.AggregatingAttributesEnc = mk(set[2], a, 1000*a)
			d[p].rows = append(d[p].rows, r)
			a *= 2
		}
	}
	c01Do(x, 2, 0, q, d, false)
	x.Obs("%v %v %d", set, q, enc)
}

// c01Zero: groups and filtering values of 0, groups whose sums are 0.
func c01Zero(x *engine.X) {
	useToy(1)
	enc := x.Choose(8, "encrypted group, where, sum")
	m := func(i uint) int { return enc >> i & 1 }
	count := enc%7 == 0 && x.Bool("count")
	g := []int64{int64(x.Choose(2, "group of the first")), int64(x.Choose(2, "group of the second"))}
	w := []int64{int64(x.Choose(2, "where of the first")), int64(x.Choose(2, "where of the second"))}
	a := []int64{x.Pick64("sum of the first", 0, -5), x.Pick64("sum of the second", 0, 5)}
	where := x.Choose(3, "no filter, filter on 0, on 1")
	two := x.Choose(2, "second provider's server")
	q := svQuery{sum: names("s", 1), groupBy: names("g", 1), count: count}
	if count {
		q.sum = append(q.sum, "count")
	}
	if where > 0 {
		q.where = []svWhere{{"w1", int64(where - 1)}}
		q.pred, q.eval = eqPred(1)
	}
	var d []svDP
	for i := range g {
		d = append(d, svDP{server: i * two, rep: 1, rows: []libunlynx.DpClearResponse{svRow(g[i:i+1], m(0), w[i:i+1], m(1), a[i:i+1], m(2))}})
	}
	c01Do(x, 2, 1, q, d, false)
	x.Obs("%v %v", q, d)
}

// c15Uneven: servers that hold different numbers of attributes for a group, and
// groups whose keys are alike.
func c15Uneven(x *engine.X) {
	par := pickTree(x, 2, 3)
	n := len(par) + 1
	keys := [][]string{{"ka", "kb"}, {""}, {"a,", ",a"}, {"\x00", "\xff"}}[x.Choose(4, "groups")]
	useToy(15)
	var data []map[string]aggGroup
	for s := 0; s < n; s++ {
		na := x.PickI("attributes of the server", 1, 2, 4)
		m := map[string]aggGroup{}
		for i, k := range keys {
			var g aggGroup
			for j := 0; j < na; j++ {
				g.attrs = append(g.attrs, int64(1+j+10*i)<<uint(8*s))
			}
			g.group = []int64{int64(i)}
			m[k] = g
		}
		data = append(data, m)
	}
	rot := x.Choose(2, "root")
	verifreset.Set("VPARALLELIZE", 2)
	inCluster(x, n, func(c *cluster.Cluster) {
		c15Run(x, c, mkTree(c, par, rot), data, false, false, true)
	})
	x.Obs("%v %v %v", par, keys, data)
}
