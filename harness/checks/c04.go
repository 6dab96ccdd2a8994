package checks

import (
	"strings"
	"time"

	servicesunlynx "github.com/ldsec/unlynx/services"

	"unlynxverif/engine"
)

func init() {
	Props["C04"] = Info{Level: "model_checking", Rule: "two surveys (three in a row) with different queries, data, queriers, servers and rosters on the same servers: every interleaving of their client operations (creation, uploads, results request and its answer), and statement-level delays while both are created, uploaded to or answered at the same time, with at most the number of delayed message links given as deviation_bound; every answer must be the plaintext evaluation over the data of its own survey, decrypted with its own querier's key.",
		Assume: []string{"messages between two servers arrive in the order of sending", "toy group"}}
	engine.Register(&engine.Scenario{Name: "c04-ops", Prop: "C04", Run: c04Ops})
	engine.Register(&engine.Scenario{Name: "c04-messages", Prop: "C04", MaxDev: 1, MaxDevT: 2, Run: c04Messages})
	engine.Register(&engine.Scenario{Name: "c04-rosters", Prop: "C04", Run: c04Rosters})
	engine.Register(&engine.Scenario{Name: "c04-stmts", Prop: "C04", MaxDev: 1, MaxDevT: 2, Run: c04Stmts})
	engine.Register(&engine.Scenario{Name: "c04-series", Prop: "C04", Run: c04Series})
}

// survey is one survey in progress.
type survey struct {
	c    *svc
	x    *engine.X
	name string
	at   int
	q    svQuery
	dps  []svDP
	sid  string
	step int
	call *svCall
	r    svResult
	late bool // the results are requested before the last upload
}

// ops: creation, one upload per provider, results request, answer.
func (v *survey) ops() int { return len(v.dps) + 3 }

// next does the next operation; false after a violation.
func (v *survey) next() bool {
	i := v.step
	v.step++
	if n := len(v.dps); v.late && n > 0 && (i == n || i == n+1) {
		i = 2*n + 1 - i
	}
	switch {
	case i == 0:
		sid, err := v.c.create(v.at, v.q, v.dps)
		if err != nil {
			v.x.Failf("survey %s cannot be created: %v", v.name, err)
			return false
		}
		v.sid = string(sid)
	case i <= len(v.dps):
		if err := v.c.do("upload", v.c.upload(sidOf(v.sid), v.q, v.dps[i-1])); err != nil {
			v.x.Failf("upload %d of survey %s fails: %v", i-1, v.name, err)
			return false
		}
	case i == len(v.dps)+1:
		v.call = v.c.start("results", v.c.results(v.at, sidOf(v.sid), false, &v.r))
	default:
		if !v.c.await(time.Hour, v.call) {
			v.x.Failf("survey %s (querier at s%d) gets no reply; query %v, data %v", v.name, v.at, v.q, v.dps)
			return false
		}
		if err := v.call.result(); err != nil {
			v.x.Failf("survey %s (querier at s%d): no answer: %v; query %v, data %v", v.name, v.at, err, v.q, v.dps)
			return false
		}
		return v.r.compare(v.x, "survey "+v.name, v.q, v.dps)
	}
	return true
}

// merge runs the operations of the surveys in an order chosen by the explorer.
func merge(x *engine.X, vs ...*survey) bool {
	for {
		var left []*survey
		for _, v := range vs {
			if v.step < v.ops() {
				left = append(left, v)
			}
		}
		if len(left) == 0 {
			return true
		}
		if !left[x.Choose(len(left), "survey")].next() {
			return false
		}
	}
}

func whereQ(val int64) svQuery {
	q := svQuery{sum: names("s", 1), groupBy: names("g", 1), where: []svWhere{{"w1", val}}}
	q.pred, q.eval = eqPred(1)
	return q
}

var otherQ = svQuery{sum: []string{"count", "s1", "s1"}, count: true, groupBy: names("g", 1)}

func c04Pair(x *engine.X, c *svc, atA, atB, data int) []*survey {
	n := len(c.Servers)
	a := &survey{c: c, x: x, name: "A", at: atA, q: whereQ(1), dps: svData([]int{1<<n - 1, 1, 2}[data], n, 10)}
	b := &survey{c: c, x: x, name: "B", at: atB, q: whereQ(2), dps: svData([]int{1<<n - 1, 1<<n - 1, 1}[data], n, 7)}
	return []*survey{a, b}
}

// c04Ops: every interleaving of the operations of two surveys.
func c04Ops(x *engine.X) {
	useToy(4)
	data := x.Choose(3, "data")
	at := x.Choose(2, "querier of B")
	kind := x.Choose(3, "query of B")
	late := 0
	if kind == 0 || x.Thorough() {
		late = x.Choose(4, "results requested before the last upload")
	}
	svCluster(x, 2, func(c *svc) {
		c.Hold()
		c.FIFO = true
		vs := c04Pair(x, c, 0, at, data)
		vs[0].late, vs[1].late = late&1 != 0, late&2 != 0
		switch kind {
		case 1:
			vs[1].q = otherQ
		case 2: // exactly the same query and data
			vs[1].q, vs[1].dps = vs[0].q, vs[0].dps
		}
		merge(x, vs...)
	})
	x.Obs("%d %d %d", data, at, kind)
}

// c04Messages: both results requests in flight, with delayed links.
func c04Messages(x *engine.X) {
	useToy(4)
	n := x.Int(2, 3, "servers")
	at := x.Choose(2, "querier of B")
	data := x.Choose(2, "data")
	if n == 3 && data == 0 && !x.Thorough() {
		return
	}
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.FIFO = true
		vs := c04Pair(x, c, 0, at, data)
		for _, v := range vs {
			for v.step < v.ops()-2 {
				if !v.next() {
					return
				}
			}
		}
		c.FIFO, c.Demote = false, true
		for _, v := range vs {
			v.next()
		}
		if c.await(2*time.Hour, vs[0].call, vs[1].call) {
			_ = vs[0].next() && vs[1].next()
			return
		}
		x.Failf("no reply to one of two surveys: messages %v", c.Trace)
	})
	x.Obs("%d %d %d", n, at, data)
}

// c04Stmts: the creations, the uploads or the results requests of two surveys
// at the same time, with delayed goroutines (at the statements of the service)
// and links.
func c04Stmts(x *engine.X) {
	useToy(4)
	n := x.Int(1, 2, "servers")
	phase := x.Choose(3, "phase")
	at := n - 1
	if x.Thorough() {
		at = x.Choose(n, "querier of B")
	}
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.FIFO = true
		vs := c04Pair(x, c, 0, at, 0)
		together := func(f func(v *survey) []*svCall) bool {
			c.FIFO = false
			c.Stmts(func(s string) bool { return stmtSites(s) && (n == 1 || strings.HasPrefix(s, "services/")) })
			var all []*svCall
			for _, v := range vs {
				all = append(all, f(v)...)
			}
			if !c.await(2*time.Hour, all...) {
				x.Failf("operations of two surveys at the same time do not end (phase %d, querier of B at s%d)", phase, at)
				return false
			}
			c.NoStmts()
			c.FIFO = true
			for _, k := range all {
				if err := k.result(); err != nil {
					x.Failf("an operation fails (phase %d, querier of B at s%d): %v", phase, at, err)
					return false
				}
			}
			return true
		}
		upTo := func(step func(v *survey) int) bool {
			for _, v := range vs {
				for v.step < step(v) {
					if !v.next() {
						return false
					}
				}
			}
			return true
		}
		switch phase {
		case 0:
			var ids [2]servicesunlynx.SurveyID
			i := -1
			if !together(func(v *survey) []*svCall {
				i++
				return []*svCall{c.start("creation", c.creation(v.at, v.q, v.dps, &ids[i]))}
			}) {
				return
			}
			for i, v := range vs {
				v.sid, v.step = string(ids[i]), 1
			}
		case 1:
			if !upTo(func(*survey) int { return 1 }) || !together(func(v *survey) (r []*svCall) {
				for _, d := range v.dps {
					r = append(r, c.start("upload", c.upload(sidOf(v.sid), v.q, d)))
				}
				v.step += len(v.dps)
				return
			}) {
				return
			}
		case 2:
			if !upTo(func(v *survey) int { return v.ops() - 2 }) || !together(func(v *survey) []*svCall {
				v.next()
				return []*svCall{v.call}
			}) {
				return
			}
		}
		upTo(func(v *survey) int { return v.ops() })
	})
	x.Obs("%d %d %d", n, phase, at)
}

// c04Rosters: surveys over different sets of servers.
func c04Rosters(x *engine.X) {
	useToy(4)
	rosters := [][]int{{0, 1}, {1, 0}, {1, 2}, {0}, {2, 0, 1}}
	ra, rb := rosters[x.Choose(len(rosters), "roster of A")], rosters[x.Choose(len(rosters), "roster of B")]
	svCluster(x, 3, func(c *svc) {
		c.Hold()
		c.FIFO = true
		mk := func(name string, r []int, base, val int64) *survey {
			v := &survey{c: c, x: x, name: name, at: r[0], q: whereQ(val)}
			v.q.servers = r
			v.dps = svData(1<<r[len(r)-1], 3, base)
			return v
		}
		merge(x, mk("A", ra, 10, 1), mk("B", rb, 7, 2))
	})
	x.Obs("%v %v", ra, rb)
}

// c04Series: surveys one after the other, with every order of kinds.
func c04Series(x *engine.X) {
	useToy(4)
	k := 3
	if x.Thorough() {
		k = 4
	}
	svCluster(x, 2, func(c *svc) {
		c.Hold()
		c.FIFO = true
		for i := 0; i < k; i++ {
			v := &survey{c: c, x: x, name: sprintf("%d", i), at: x.Choose(2, "querier's server")}
			switch x.Choose(4, "kind") {
			case 0:
				v.q, v.dps = whereQ(1), svData(3, 2, int64(3+i))
			case 1:
				v.q, v.dps = whereQ(2), svData(2, 2, 5)
			case 2:
				v.q, v.dps = otherQ, svData(1, 2, int64(2+i))
			case 3: // no data at all
				v.q, v.dps = whereQ(1), nil
			}
			v.q.proofs = i == 1
			for v.step < v.ops() {
				if !v.next() {
					return
				}
			}
		}
	})
	x.Obs("")
}

func sidOf(s string) servicesunlynx.SurveyID { return servicesunlynx.SurveyID(s) }
