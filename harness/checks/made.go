package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// The proofs that the protocols and the service create on the way, published or
// not: every function of the library that creates a proof is watched.

func init() {
	engine.Register(&engine.Scenario{Name: "c12-protocols", Prop: "C12", Run: c12Protocols})
	engine.Register(&engine.Scenario{Name: "c12-surveys", Prop: "C12", Run: c12Surveys})
}

// watchProofs verifies every proof that is created from now on; the function it
// returns gives how many there were of each kind.
func watchProofs(x *engine.X) func() map[string]int {
	var mu sync.Mutex
	made := map[string]int{}
	done := false
	verifreset.OnProof = func(args, results []interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if done || len(results) == 0 {
			return
		}
		if len(results) > 1 && results[1] != nil {
			x.Failf("a proof of an honest server is not created: %v", results[1])
			return
		}
		kind, ok := "", true
		defer func() {
			if r := recover(); r != nil {
				x.Failf("verifying a proof of an honest server ends in a crash: %v", r)
			}
		}()
		switch p := results[0].(type) {
		case libunlynxaggr.PublishedAggregationProof:
			kind, ok = "aggregation", libunlynxaggr.AggregationProofVerification(p)
		case libunlynxaggr.PublishedAggregationListProof:
			kind, ok = "aggregation list", libunlynxaggr.AggregationListProofVerification(p, 1)
		case libunlynxkeyswitch.PublishedKSProof:
			kind, ok = "key switch", libunlynxkeyswitch.KeySwitchProofVerification(p)
		case libunlynxkeyswitch.PublishedKSListProof:
			kind, ok = "key switch list", libunlynxkeyswitch.KeySwitchListProofVerification(p, 1)
		case libunlynxshuffle.PublishedShufflingProof:
			kind, ok = "shuffle", libunlynxshuffle.ShuffleProofVerification(p, p.H)
		case libunlynxdetertag.PublishedDDTCreationListProof:
			kind, ok = "tag creation list", libunlynxdetertag.DeterministicTagCrListProofVerification(p, 1)
		case libunlynxdetertag.PublishedDDTAdditionProof:
			kind, ok = "tag addition", libunlynxdetertag.DeterministicTagAdditionProofVerification(p)
		case libunlynxdetertag.PublishedDDTAdditionListProof:
			kind, ok = "tag addition list", libunlynxdetertag.DeterministicTagAdditionListProofVerification(p, 1)
		case libunlynxaddrm.PublishedAddRmListProof:
			kind, ok = "server addition/removal list", libunlynxaddrm.AddRmListProofVerification(p, 1)
		default: // verified as part of a list
			return
		}
		made[kind]++
		if !ok {
			x.Failf("a proof (%s) made by an honest server does not verify", kind)
		}
	}
	return func() map[string]int {
		mu.Lock()
		defer mu.Unlock()
		done = true
		return made
	}
}

func madeString(m map[string]int) string {
	var s []string
	for k, n := range m {
		s = append(s, fmt.Sprint(k, "=", n))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func countMade(x *engine.X, m map[string]int) {
	for k, n := range m {
		x.Count("proofs: "+k, n)
	}
}

// c12Protocols runs every protocol once, with proofs.
func c12Protocols(x *engine.X) {
	kind := x.Choose(7, "protocol")
	par := []int{}
	rot := 0
	if kind < 5 {
		par = pickTree(x, 1, 3)
		if len(par) > 0 {
			rot = x.Choose(2, "root")
		}
	}
	n := x.Int(1, 3, "values, rows or groups")
	if (kind == 1 || kind == 3) && n == 1 {
		return // a permutation of one row has no proof
	}
	same := x.Choose(3, "different, equal or zero values")
	suiteSmall(x)
	if libunlynx.SuiTe == realSuite && (len(par) == 2 || same == 1) {
		return
	}
	verifreset.Set("VPARALLELIZE", x.PickI("work split", 1, 2, 100))
	val := func(i int) int64 {
		return []int64{int64(i + 1), 7, 0}[same]
	}
	made := watchProofs(x)
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		var vals []int64
		var rows [][]int64
		for i := 0; i < n; i++ {
			vals = append(vals, val(i))
			rows = append(rows, []int64{val(i), val(i + 1)})
		}
		key := c.Roster.Aggregate
		switch kind {
		case 0:
			_, pub := libunlynx.GenKey()
			c07Run(x, c, mkTree(c, par, rot), *libunlynx.EncryptIntVector(key, vals), pub, true, true)
		case 1:
			c08Run(x, c, mkTree(c, par, rot), rowsOf(key, rows, false), c08opt{proofs: true, fifo: true, pre: x.Bool("precomputed")})
		case 2:
			c09Run(x, c, mkTree(c, par, rot), surveySecrets(len(par)+1), *libunlynx.EncryptIntVector(key, vals), true, true)
		case 3:
			c09CRun(x, c, mkTree(c, par, rot), surveySecrets(len(par)+1), rowsOf(key, rows, false), true, false, true)
		case 4:
			var sub []int
			for i := 0; i <= len(par); i++ {
				sub = append(sub, []int{1<<n - 1, 1 << (i % n), 1 - i%2}[same])
			}
			nattr := x.Int(1, 2, "attributes")
			c15Run(x, c, mkTree(c, par, rot), c15Data(sub, n, nattr, 1), false, true, true)
		case 5:
			k, _ := libunlynx.GenKey()
			addRm(x, c, *libunlynx.EncryptIntVector(key, vals), k, x.Bool("add"), true)
		case 6:
			pi, err := c.Local.CreateProtocol("VerifLocal", c.Roster.GenerateBinaryTree())
			if err != nil {
				x.Failf("cannot create the protocol: %v", err)
				return
			}
			m := pi.(*manual)
			defer close(m.stop)
			p := m.ProtocolInstance.(*protocolsunlynxutils.LocalAggregationProtocol)
			p.Proofs = true
			nattr := x.Int(1, 2, "attributes")
			for i := 0; i < 2*n; i++ {
				p.TargetOfAggregation = append(p.TargetOfAggregation, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(sprintf("t%d", i%n*min(i, 2))), Fr: libunlynx.FilteredResponse{
					GroupByEnc: *libunlynx.EncryptIntVector(key, []int64{1}), AggregatingAttributes: *libunlynx.EncryptIntVector(key, []int64{val(i), 3 * val(i)}[:nattr])}})
			}
			go func() { _ = p.Start() }()
			go func() { _ = p.Dispatch() }()
			<-p.FeedbackChannel
		}
	})
	got := made()
	countMade(x, got)
	x.Obs("%d %v %d %d %d %s", kind, par, rot, n, same, madeString(got))
}

// c12Surveys runs a survey with proofs.
func c12Surveys(x *engine.X) {
	n := x.Int(1, 3, "servers")
	q := svQuery{sum: []string{"s1", "count", "s2"}, count: true, groupBy: names("g", 1), where: []svWhere{{"w1", 1}}, proofs: true}
	q.pred, q.eval = eqPred(1)
	if x.Bool("no filter") {
		q.where, q.pred, q.eval = nil, "", nil
	}
	enc := []int{0, 1}[x.Choose(2, "encrypted")]
	place := x.Choose(n+1, "data at one server or all of them")
	at := x.Choose(n, "querier's server")
	rows := x.PickI("rows", 3, 7)
	suiteSmall(x)
	if libunlynx.SuiTe == realSuite && (n != 2 || place < n || rows > 3) {
		return
	}
	verifreset.Set("VPARALLELIZE", 2)
	var dps []svDP
	for s := 0; s < n; s++ {
		if place < n && s != place {
			continue
		}
		d := svDP{server: s, rep: 1}
		for i := 0; i < rows; i++ {
			d.rows = append(d.rows, svRow([]int64{int64(i % 2)}, enc, []int64{int64(1 + i/2%3*s)}, enc, []int64{int64(s + i), int64(10 * i)}, 3*enc))
		}
		dps = append(dps, d)
	}
	made := watchProofs(x)
	c01Do(x, n, at, q, dps, false)
	got := made()
	countMade(x, got)
	x.Obs("%d %v %d %d %d %s", n, q, place, at, rows, madeString(got))
}
