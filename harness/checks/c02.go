package checks

import (
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/engine"
)

func init() {
	engine.Register(&engine.Scenario{Name: "c02-stmts", Prop: "C02", MaxDev: 1, MaxDevT: 2, Run: c02Stmts})
	Props["C02"] = Info{Level: "model_checking", Rule: "whole surveys with 2 and 3 servers, every querier's server, every placement of the data, uploads before and after the results request: every order of the messages that delays at most the number of links given as deviation_bound in the evidence (a delayed link only delivers when nothing else can; once for all messages and, deeper, for the service's own messages - creation, acknowledgement, results request, phase completion - with the protocol messages following at once); the survey must end and the decrypted answer must be the plaintext evaluation.",
		Assume: []string{"messages between two servers arrive in the order of sending", "a delivered message is processed until the servers are quiescent before the next one is delivered (statement-level interleavings within a server: C03)", "toy group"}}
	engine.Register(&engine.Scenario{Name: "c02-notices", Prop: "C02", MaxDev: 2, MaxDevT: 4, Run: c02Notices})
	engine.Register(&engine.Scenario{Name: "c02-delays", Prop: "C02", MaxDev: 1, MaxDevT: 2, Run: c02Delays})
	engine.Register(&engine.Scenario{Name: "c02-delays2", Prop: "C02", MaxDev: 2, MaxDevT: 3, Run: c02Delays2})
}

// svData is a small data set for the servers in place; every server has a row
// of a common group, a row of an own group and a row that is filtered.
func svData(place, n int, base int64) []svDP {
	var dps []svDP
	for s := 0; s < n; s++ {
		if place>>s&1 == 1 {
			b := base * int64(s+1)
			dps = append(dps, svDP{server: s, rep: 1, rows: []libunlynx.DpClearResponse{
				svRow([]int64{1}, s%2, []int64{1}, s%2, []int64{b}, 1),
				svRow([]int64{int64(2 + s)}, s%2, []int64{1}, s%2, []int64{2 * b}, 1),
				svRow([]int64{1}, s%2, []int64{2}, s%2, []int64{3 * b}, 0)}})
		}
	}
	return dps
}

func c02Run(x *engine.X, n, at, place int, late, proofs bool, mode func(c *svc)) {
	useToy(2)
	q := svQuery{sum: names("s", 1), groupBy: names("g", 1), where: []svWhere{{"w1", 1}}, proofs: proofs}
	q.pred, q.eval = eqPred(1)
	dps := svData(place, n, 10)
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.Prompt = true
		mode(c)
		sid, err := c.create(at, q, dps)
		if err != nil {
			x.Failf("the survey cannot be created: %v", err)
			return
		}
		var r svResult
		var calls []*svCall
		if late {
			calls = append(calls, c.start("results", c.results(at, sid, false, &r)))
		}
		for _, d := range dps {
			calls = append(calls, c.start("upload", c.upload(sid, q, d)))
		}
		if !late {
			if !c.await(time.Hour, calls...) {
				x.Failf("uploads do not end")
				return
			}
			calls = append(calls, c.start("results", c.results(at, sid, false, &r)))
		}
		if !c.await(time.Hour, calls...) {
			x.Failf("the survey does not end (querier at s%d, data %v): messages %v", at, dps, c.Trace)
			return
		}
		for _, k := range calls {
			if err := k.result(); err != nil {
				x.Failf("no answer: %v (querier at s%d, data %v): messages %v", err, at, dps, c.Trace)
				return
			}
		}
		r.compare(x, sprintf("querier at s%d, messages %v", at, c.Trace), q, dps)
	})
	x.Obs("%d %d %d %v %v", n, at, place, late, proofs)
}

// c02Notices explores delays of the service's own messages.
func c02Notices(x *engine.X) {
	n := x.Int(2, 3, "servers")
	at := x.Choose(n, "querier's server")
	place := x.Choose(1<<n, "servers with data")
	late := x.Bool("query before the uploads")
	if !x.Thorough() && (n == 2 || at > 0 || place == 0 || place == 2 || place == 4 || place == 5) {
		return
	}
	c02Run(x, n, at, place, late, false, func(c *svc) {
		c.Demote = true
		c.Eager = func(name string) bool { return name == "OverlayMsg" }
	})
}

// c02Delays explores delays of links for all configurations.
func c02Delays(x *engine.X) {
	n := x.Int(2, 4, "servers")
	at := x.Choose(n, "querier's server")
	place := x.Choose(1<<n, "servers with data")
	late := x.Bool("query before the uploads")
	if n == 4 && (at > 0 || place != 15 && place != 11) {
		return
	}
	c02Run(x, n, at, place, late, place == 1<<n-1, func(c *svc) { c.Demote = true })
}

// c02Delays2 goes deeper for selected configurations.
func c02Delays2(x *engine.X) {
	place := []int{7, 5, 2}[x.Choose(3, "servers with data")]
	at := 0
	if x.Thorough() {
		at = x.Choose(3, "querier's server")
	}
	c02Run(x, 3, at, place, false, false, func(c *svc) { c.Demote = true })
}

// stmtSites accepts the statements of the methods of the service and of the
// protocols (not those of the computations they split up).
func stmtSites(s string) bool {
	i := strings.IndexByte(s, '#')
	if i < 0 || !strings.HasPrefix(s, "services/") && !strings.HasPrefix(s, "protocols/") || strings.HasPrefix(s, "protocols/utils/") {
		return false
	}
	t := strings.Split(s[i+1:], ".")[0]
	return t == "Service" || strings.HasSuffix(t, "Protocol")
}

// c02Stmts delays goroutines, at the statements of the service and of the
// protocols, and links.
func c02Stmts(x *engine.X) {
	n := x.Int(1, 3, "servers")
	at, place := 0, 1<<n-1
	if x.Thorough() {
		at = x.Choose(n, "querier's server")
		place = x.Choose(1<<n, "servers with data")
	} else if n == 3 {
		place = 4
	}
	late := x.Bool("query before the uploads")
	if late && n == 3 && !x.Thorough() {
		return
	}
	c02Run(x, n, at, place, late, false, func(c *svc) {
		c.Stmts(func(s string) bool {
			return stmtSites(s) && (n < 3 || x.Thorough() || strings.HasPrefix(s, "services/"))
		})
	})
}
