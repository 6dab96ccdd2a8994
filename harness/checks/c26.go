package checks

import (
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"unlynxverif/engine"
)

func init() {
	Props["C26"] = Info{Level: "fault_enumeration", Rule: "whole surveys with 2 and 3 servers, every querier's server, every placement of the data, with and without proofs: every single message between the servers (of the service and of the protocols) is lost in turn, also together with the delay of one link or with data that arrives up to 25 minutes later at one server than at another; the querier gets the plaintext evaluation or none, no server crashes, and a following survey on the same servers gets its right answer.",
		Assume: []string{"one lost message per survey; messages that establish connections, trees and rosters are not lost", "toy group; virtual time"}}
	engine.Register(&engine.Scenario{Name: "c26-loss", Prop: "C26", MaxDev: 1, MaxDevT: 1, Run: c26Loss})
	engine.Register(&engine.Scenario{Name: "c26-late", Prop: "C26", MaxDev: 1, MaxDevT: 1, Run: c26Late})
	engine.Register(&engine.Scenario{Name: "c26-loss-delay", Prop: "C26", MaxDev: 2, MaxDevT: 2, Run: c26LossDelay})
}

func c26Run(x *engine.X, n, at, place int, late, proofs bool, lags []time.Duration, mode func(c *svc)) {
	useToy(26)
	q := whereQ(1)
	q.proofs = proofs
	dps := svData(place, n, 10)
	outcome := "?"
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.Prompt = true
		c.DropChoice, c.DropBudget = true, 1
		mode(c)
		outcome = c26Survey(x, c, at, q, dps, late, lags)
		if x.Failed() {
			return
		}
		lost := ""
		if c.Dropped == 1 {
			lost = sprintf("lost message %v", lostOf(c.Trace))
		}
		c.DropChoice, c.Demote, c.FIFO = false, false, true
		q2 := whereQ(2)
		dps2 := svData(1<<n-1, n, 7)
		sid, err := c.create((at+1)%n, q2, dps2)
		if err != nil {
			x.Failf("after the %s, the next survey cannot be created: %v", lost, err)
			return
		}
		for _, d := range dps2 {
			if err := c.do("upload", c.upload(sid, q2, d)); err != nil {
				x.Failf("after the %s, an upload of the next survey fails: %v", lost, err)
				return
			}
		}
		var r svResult
		if err := c.do("results", c.results((at+1)%n, sid, false, &r)); err != nil {
			x.Failf("after the %s, the next survey gets no answer: %v: messages %v", lost, err, c.Trace)
			return
		}
		r.compare(x, "after the "+lost+", next survey", q2, dps2)
	})
	x.Obs("%d %d %d %v %v %v %s", n, at, place, late, proofs, lags, outcome)
}

func lostOf(trace []string) string {
	for _, t := range trace {
		if len(t) > 5 && t[:5] == "drop " {
			return t[5:]
		}
	}
	return "none"
}

// c26Survey runs the survey with the loss; it tells what the querier gets.
func c26Survey(x *engine.X, c *svc, at int, q svQuery, dps []svDP, late bool, lags []time.Duration) string {
	// servers that wait for others give up after some time
	slow := false
	for _, l := range lags {
		if l-lags[at] >= libunlynx.TIMEOUT-time.Minute {
			slow = true
		}
	}
	fail := func(what string, err error) string {
		if c.Dropped == 0 && !slow {
			x.Failf("nothing is lost and %s: %v", what, err)
		}
		return what
	}
	sid, err := c.create(at, q, dps)
	if err != nil {
		return fail("no survey", err)
	}
	var r svResult
	var calls []*svCall
	if late {
		calls = append(calls, c.start("results", c.results(at, sid, false, &r)))
	}
	for _, d := range dps {
		up, lag := c.upload(sid, q, d), time.Duration(0)
		if lags != nil {
			lag = lags[d.server]
		}
		calls = append(calls, c.start("upload", func() error {
			time.Sleep(lag)
			return up()
		}))
	}
	if !late {
		calls = append(calls, c.start("results", c.results(at, sid, false, &r)))
	}
	if !c.await(3*time.Hour, calls...) {
		return fail("no reply", nil)
	}
	for _, k := range calls {
		if err := k.result(); err != nil {
			return fail("error", err)
		}
	}
	r.compare(x, sprintf("querier at s%d, lost message %s", at, lostOf(c.Trace)), q, dps)
	return "answer"
}

func c26Loss(x *engine.X) {
	n := x.Int(2, 3, "servers")
	at := x.Choose(n, "querier's server")
	place := x.Choose(1<<n, "servers with data")
	late := x.Bool("query before the uploads")
	c26Run(x, n, at, place, late, late && place == 1<<n-1, nil, func(c *svc) { c.FIFO = true })
}

func c26LossDelay(x *engine.X) {
	at, place := 0, []int{7, 5, 6}[x.Choose(3, "servers with data")]
	if x.Thorough() {
		at = x.Choose(3, "querier's server")
	}
	c26Run(x, 3, at, place, false, false, nil, func(c *svc) { c.Demote = true })
}

// c26Late lets the data of the servers arrive at different times.
func c26Late(x *engine.X) {
	n := x.Int(2, 3, "servers")
	at := x.Choose(n, "querier's server")
	if n == 3 && at > 0 && !x.Thorough() {
		return
	}
	lags := make([]time.Duration, n)
	for i := range lags {
		lags[i] = time.Duration(x.PickI("minutes before the upload", 0, 5, 12, 25)) * time.Minute
	}
	if lags[0] == lags[1] && lags[0] == lags[n-1] || !x.Thorough() && n == 3 && lags[1] == 12*time.Minute {
		return
	}
	c26Run(x, n, at, 1<<n-1, true, false, lags, func(c *svc) { c.FIFO = true })
}
