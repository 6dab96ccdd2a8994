package checks

import (
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/engine"
)

// Data that arrives long after the querier has asked for the results.

func init() {
	engine.Register(&engine.Scenario{Name: "c03-late", Prop: "C03", Run: c03Late})
}

func c03Late(x *engine.X) {
	useToy(3)
	at := x.Choose(2, "querier's server")
	q := svQuery{sum: names("s", 1), groupBy: names("g", 1), where: []svWhere{{"w1", 5}}}
	q.pred, q.eval = eqPred(1)
	var dps []svDP
	var lags []time.Duration
	last := [2]time.Duration{}
	for _, s := range [][]int{{at, at, 1 - at}, {at, 1 - at, 1 - at}}[x.Choose(2, "uploads at the querier's server")] {
		k := len(dps)
		d := []time.Duration{0, 9 * time.Minute, 11 * time.Minute, 3 * time.Hour, 30 * time.Hour}[x.Choose(5, "time of the upload")]
		dps = append(dps, svDP{server: s, rep: 1, rows: []libunlynx.DpClearResponse{
			svRow([]int64{1}, k%2, []int64{5}, k%2, []int64{int64(3 << uint(4*k))}, k%2),
			svRow([]int64{2}, k%2, []int64{5}, k%2, []int64{int64(5 << uint(4*k))}, k%2),
			svRow([]int64{2}, k%2, []int64{6}, k%2, []int64{1000}, k%2)}})
		lags = append(lags, d)
		if d > last[s] {
			last[s] = d
		}
	}
	svCluster(x, 2, func(c *svc) {
		c.Hold()
		c.FIFO = true
		sid, err := c.create(at, q, dps)
		if err != nil {
			x.Failf("the survey cannot be created: %v", err)
			return
		}
		var r svResult
		res := c.start("results", c.results(at, sid, false, &r))
		calls := []*svCall{res}
		for i, d := range dps {
			up, lag := c.upload(sid, q, d), lags[i]
			calls = append(calls, c.start("upload", func() error {
				time.Sleep(lag)
				return up()
			}))
		}
		if !c.await(100*time.Hour, calls...) {
			x.Failf("the survey does not end; uploads after %v", lags)
			return
		}
		for _, k := range calls[1:] {
			if err := k.result(); err != nil {
				x.Failf("the upload fails: %v; uploads after %v", err, lags)
				return
			}
		}
		if err := res.result(); err != nil {
			// the querier's server does not wait for another one for ever
			if last[1-at]-last[at] < libunlynx.TIMEOUT {
				x.Failf("no answer: %v; uploads after %v", err, lags)
			}
			return
		}
		r.compare(x, sprintf("uploads after %v", lags), q, dps)
	})
	x.Obs("%d %v", at, lags)
}
