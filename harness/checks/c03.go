package checks

import (
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/onet/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
)

func init() {
	Props["C03"] = Info{Level: "model_checking", Rule: "the real request handlers of a server (uploads, results request) run as threads under a controlled scheduler that chooses, at every statement of the service and of its store, which one goes on; every schedule with at most the number of departures from the default order given as deviation_bound, for every pair of kinds of upload (clear and encrypted, same and different groups), with the results request before, between or after; also numbers of uploads around the capacity of the service's queues, uploads that are rejected and sent again, and uploads long after the request. The decrypted answer is compared with the plaintext evaluation over the acknowledged uploads.",
		Assume: []string{"switches happen at statement boundaries of the service and the store, and at their locks", "the number of uploads is the one announced at the creation of the survey", "toy group"}}
	engine.Register(&engine.Scenario{Name: "c03-uploads", Prop: "C03", MaxDev: 1, MaxDevT: 3, Run: c03Uploads})
	engine.Register(&engine.Scenario{Name: "c03-query", Prop: "C03", MaxDev: 1, MaxDevT: 3, Run: c03Query})
	engine.Register(&engine.Scenario{Name: "c03-remote", Prop: "C03", MaxDev: 1, MaxDevT: 2, Run: c03Remote})
	engine.Register(&engine.Scenario{Name: "c03-many", Prop: "C03", Run: c03Many})
	engine.Register(&engine.Scenario{Name: "c03-reject", Prop: "C03", Run: c03Reject})
}

func serverSites(s string) bool {
	return strings.HasPrefix(s, "services/service.go") || strings.HasPrefix(s, "lib/store/")
}

// c03Rows is the data of one upload of a kind; id makes the values distinct.
func c03Rows(kind int, id int64) []libunlynx.DpClearResponse {
	enc := 0
	g := int64(1)
	switch kind {
	case 1: // encrypted grouping
		enc = 1
	case 2: // clear, other group
		g = 2
	case 3: // several rows
		return []libunlynx.DpClearResponse{svRow([]int64{1}, 0, nil, 0, []int64{id}, 0), svRow([]int64{1}, 1, nil, 0, []int64{10 * id}, 0)}
	}
	return []libunlynx.DpClearResponse{svRow([]int64{g}, enc, nil, 0, []int64{id}, 1)}
}

// c03Threads runs uploads, prepared by the client beforehand, and perhaps the
// results request as controlled threads and compares the answer.
func c03Threads(x *engine.X, c *svc, at int, q svQuery, dps []svDP, query bool) {
	c.Free()
	sid, err := c.create(at, q, dps)
	if err != nil {
		x.Failf("the survey cannot be created: %v", err)
		return
	}
	var ths []cluster.Thread
	var ended int32
	acked := make([]error, len(dps))
	for i, d := range dps {
		i, d := i, d
		up, err := servicesunlynx.EncryptDataToSurvey("dp", sid, d.rows, c.Roster.Aggregate, d.rep, q.count)
		if err != nil {
			panic(err)
		}
		ths = append(ths, cluster.Thread{Name: fmt.Sprintf("upload%d", i), Body: func() {
			_, acked[i] = c.srv[d.server].HandleSurveyResponseQuery(up)
			atomic.AddInt32(&ended, 1)
		}})
	}
	var r svResult
	var rerr error
	if query {
		// (without a departure, the first thread by name runs first)
		name := []string{"query", "~query"}[x.Choose(2, "first")]
		ths = append(ths, cluster.Thread{Name: name, Body: func() { rerr = c.results(at, sid, false, &r)() }})
	}
	// once the uploads are acknowledged a single request is left (C02)
	if !cluster.DelayThreadsUntil(x, serverSites, time.Hour, func() bool { return int(atomic.LoadInt32(&ended)) == len(dps) }, ths...) {
		x.Failf("uploads %v with query %v do not end", dps, query)
		return
	}
	for i, e := range acked {
		if e != nil {
			x.Failf("upload %d is rejected: %v", i, e)
			return
		}
	}
	if !query {
		rerr = c.do("results", c.results(at, sid, false, &r))
	}
	if rerr != nil {
		x.Failf("no answer: %v; data %v", rerr, dps)
		return
	}
	r.compare(x, "concurrent uploads", q, dps)
}

var c03Q = svQuery{sum: names("s", 1), groupBy: names("g", 1)}

// c03Uploads: two (three) concurrent uploads, the query afterwards.
func c03Uploads(x *engine.X) {
	useToy(3)
	n := x.Int(2, 3, "uploads")
	var dps []svDP
	for i := 0; i < n; i++ {
		dps = append(dps, svDP{server: 0, rep: 1, rows: c03Rows(x.Choose(4, "kind"), []int64{1, 30, 700}[i])})
	}
	if n == 3 && !x.Thorough() && (len(dps[0].rows) != 1 || len(dps[1].rows) != 1 || len(dps[2].rows) != 1) {
		return
	}
	q := c03Q
	q.proofs = x.Bool("proofs")
	if q.proofs && n == 3 {
		return
	}
	svCluster(x, 1, func(c *svc) { c03Threads(x, c, 0, q, dps, false) })
	x.Obs("%v", dps)
}

// c03Query: concurrent uploads and results request at one server.
func c03Query(x *engine.X) {
	useToy(3)
	n := x.Int(1, 2, "uploads")
	var dps []svDP
	for i := 0; i < n; i++ {
		dps = append(dps, svDP{server: 0, rep: 1, rows: c03Rows(x.Choose(4, "kind"), []int64{1, 30}[i])})
	}
	svCluster(x, 1, func(c *svc) { c03Threads(x, c, 0, c03Q, dps, true) })
	x.Obs("%v", dps)
}

// c03Remote: the results request reaches the server of the uploads from
// another server.
func c03Remote(x *engine.X) {
	useToy(3)
	kind := x.Choose(4, "kind")
	at := x.Choose(2, "querier's server")
	dps := []svDP{{server: 0, rep: 1, rows: c03Rows(kind, 1)}, {server: 1, rep: 1, rows: c03Rows(kind, 30)}}
	svCluster(x, 2, func(c *svc) { c03Threads(x, c, at, c03Q, dps, true) })
	x.Obs("%v", dps)
}

// c03Many: as many uploads as announced, around the capacity of the queues.
func c03Many(x *engine.X) {
	useToy(4)
	n := x.PickI("uploads", 0, 2, 99, 100, 101, 102, 150, 201)
	servers := x.Int(1, 2, "servers")
	late := x.Bool("query before the uploads")
	var dps []svDP
	for i := 0; i < n; i++ {
		s := 0
		if servers == 2 {
			s = 1
			if i == 7 {
				s = 0
			}
		}
		dps = append(dps, svDP{server: s, rep: 1, rows: c03Rows(i%2, int64(1+i))})
	}
	svCluster(x, servers, func(c *svc) {
		c.Hold()
		c.FIFO = true
		sid, err := c.create(0, c03Q, dps)
		if err != nil {
			x.Failf("the survey cannot be created: %v", err)
			return
		}
		var r svResult
		var q *svCall
		if late {
			q = c.start("results", c.results(0, sid, false, &r))
		}
		for i, d := range dps {
			if err := c.do("upload", c.upload(sid, c03Q, d)); err != nil {
				x.Failf("upload %d of %d announced ones fails: %v", i, n, err)
				return
			}
		}
		if !late {
			q = c.start("results", c.results(0, sid, false, &r))
		}
		if !c.await(time.Hour, q) || q.result() != nil {
			x.Failf("no answer with %d uploads: %v", n, q.result())
			return
		}
		r.compare(x, sprintf("%d uploads", n), c03Q, dps)
	})
	x.Obs("%d %d %v", n, servers, late)
}

// c03Reject: an upload whose bad row makes the server refuse it is not counted;
// the provider sends it again, without the mistake.
func c03Reject(x *engine.X) {
	useToy(5)
	rows := x.Int(1, 3, "rows")
	bad := x.Choose(rows, "bad row")
	field := x.Choose(3, "field")
	how := x.Choose(4, "mistake")
	enc := x.Choose(2, "grouping enc")
	d := svDP{server: 0, rep: 1}
	for i := 0; i < rows; i++ {
		d.rows = append(d.rows, svRow([]int64{int64(i % 2)}, enc, []int64{1}, 1-enc, []int64{int64(1 + i*i)}, 1))
	}
	q := c03Q
	q.where = []svWhere{{"w1", 1}}
	q.pred, q.eval = eqPred(1)
	dps := []svDP{d, {server: 0, rep: 1, rows: d.rows[:1]}}
	refused := false
	svCluster(x, 1, func(c *svc) {
		c.Hold()
		c.FIFO = true
		sid, err := c.create(0, q, dps)
		if err != nil {
			x.Failf("the survey cannot be created: %v", err)
			return
		}
		up, err := servicesunlynx.EncryptDataToSurvey("dp", sid, d.rows, c.Roster.Aggregate, 1, false)
		if err != nil {
			panic(err)
		}
		m := [][]map[string][]byte{{up.Responses[bad].AggregatingAttributesEnc}, {up.Responses[bad].GroupByEnc, up.Responses[bad].WhereEnc}, {up.Responses[bad].AggregatingAttributesEnc}}[field]
		for _, mm := range m {
			for k, v := range mm {
				switch how {
				case 0:
					mm[k] = v[:len(v)-1]
				case 1:
					mm[k] = nil
				case 2:
					mm[k] = append(append([]byte{}, v...), 0)
				case 3:
					mm[k] = []byte{1, 2, 3}
				}
				if field == 2 {
					break
				}
			}
		}
		cl := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName)
		err = c.do("upload", func() error {
			return cl.SendProtobuf(c.Servers[0].ServerIdentity, up, &servicesunlynx.ServiceState{})
		})
		if err == nil {
			return // accepted: nothing is said about its meaning here
		}
		refused = true
		other := c.do("upload", func() error {
			u := *up
			u.SurveyID = "unknown"
			return cl.SendProtobuf(c.Servers[0].ServerIdentity, &u, &servicesunlynx.ServiceState{})
		})
		if other == nil {
			x.Failf("an upload for an unknown survey is acknowledged")
			return
		}
		for i, d := range dps {
			if err := c.do("upload", c.upload(sid, q, d)); err != nil {
				x.Failf("upload %d fails: %v", i, err)
				return
			}
		}
		var r svResult
		if err := c.do("results", c.results(0, sid, false, &r)); err != nil {
			x.Failf("no answer: %v", err)
			return
		}
		r.compare(x, sprintf("after a refused upload (row %d, mistake %d)", bad, how), q, dps)
	})
	x.Obs("%d %d %d %d %d refused %v", rows, bad, field, how, enc, refused)
}
