package checks

import (
	"fmt"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Functions that split their work among goroutines, under every schedule of
// these goroutines up to the delay bound. A scheduling point is a statement of
// the library or of a protocol, and (ops) a group operation.

func init() {
	for _, s := range []struct {
		n, p string
		dev  int
		run  func(*engine.X)
	}{
		{"c07-split", "C07", 2, c07Split}, {"c08-split", "C08", 1, c08Split}, {"c09-split", "C09", 2, c09Split}, {"c10-split", "C10", 1, c10Split},
		{"c12-split", "C12", 1, c12Split}, {"c14-split", "C14", 1, c14Split}, {"c19-split", "C19", 2, c19Split}, {"c23-split", "C23", 2, c23Split},
		{"c07-stmts", "C07", 1, c07Stmts}, {"c08-stmts", "C08", 1, c08Stmts}, {"c09-stmts", "C09", 1, c09Stmts}, {"c15-stmts", "C15", 1, c15Stmts},
	} {
		engine.Register(&engine.Scenario{Name: s.n, Prop: s.p, MaxDev: s.dev, MaxDevT: s.dev + 1, Run: s.run})
	}
}

// treeSites are the statements of the protocols over trees and of the library.
func treeSites(s string) bool {
	return strings.HasPrefix(s, "lib/") || strings.HasPrefix(s, "protocols/") && !strings.HasPrefix(s, "protocols/utils/")
}

// stmtTree picks a small tree whose protocol runs are scheduled statement by
// statement.
func stmtTree(x *engine.X, body func(c *cluster.Cluster, t *tree)) {
	useToy(7)
	verifreset.Set("VPARALLELIZE", 1)
	hi := 2
	if x.Thorough() {
		hi = 3
	}
	par := pickTree(x, 1, hi)
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, 0)
		t.stmts = true
		body(c, t)
	})
	x.Obs("%v", par)
}

func c07Stmts(x *engine.X) {
	stmtTree(x, func(c *cluster.Cluster, t *tree) {
		in := someCV(c.Roster.Aggregate, 2)
		c07Check(x, t, collective(c), sc(5), in, c07Run(x, c, t, in, pt(5), false, true))
	})
}

func c08Stmts(x *engine.X) {
	stmtTree(x, func(c *cluster.Cluster, t *tree) {
		in := rowsOf(c.Roster.Aggregate, [][]int64{{1, 2}, {3, 4}, {5, 6}}, false)
		c08Check(x, t.desc, collective(c), in, c08Run(x, c, t, in, c08opt{fifo: true}))
	})
}

func c09Stmts(x *engine.X) {
	stmtTree(x, func(c *cluster.Cluster, t *tree) {
		vals := []int64{4, 7, 4}
		c09Same(x, t.desc, vals, c09Run(x, c, t, surveySecrets(t.n), encAll(c.Roster.Aggregate, vals), false, true))
	})
}

func c15Stmts(x *engine.X) {
	stmtTree(x, func(c *cluster.Cluster, t *tree) {
		c15Run(x, c, t, c15Data([]int{3, 6, 5}[:t.n], 3, 1, 1), false, false, true)
	})
}

// anySite accepts every instrumented statement.
func anySite(string) bool { return true }

// split runs f under the scheduler and tells whether it came to its end.
func split(x *engine.X, what string, ops bool, f func()) bool {
	done := false
	cluster.Bubble(x, func() {
		run := cluster.DelayThreads
		if ops {
			run = cluster.OpThreads
		}
		if run(x, anySite, time.Minute, cluster.Thread{Name: "t", Body: f}) {
			done = true
		} else if !x.Failed() {
			x.Failf("%s does not come to an end", what)
		}
	})
	return done && !x.Failed()
}

func splitToy(x *engine.X, hi int) int {
	useToy(77)
	mkCtr = 0
	verifreset.Set("VPARALLELIZE", 1)
	if x.Thorough() {
		hi = 3
	}
	return x.Int(2, hi, "elements")
}

func c07Split(x *engine.X) {
	n := splitToy(x, 3)
	s := libunlynx.SuiTe
	k, q := sc(5), sc(7)
	Q := pt(7)
	cv := someCV(pt(5), n)
	var in []kyber.Point
	for _, c := range cv {
		in = append(in, c.K.Clone())
	}
	var out libunlynx.CipherVector
	if !split(x, "key switching", true, func() { out, _, _, _ = libunlynxkeyswitch.KeySwitchSequence(Q, in, k) }) {
		return
	}
	if len(out) != n {
		x.Failf("%d ciphertexts give %d results", n, len(out))
		return
	}
	for i := range out {
		// the server's share is (v.B, v.Q - k.rB)
		want := s.Point().Sub(s.Point().Mul(q, out[i].K), s.Point().Mul(k, cv[i].K))
		if !in[i].Equal(cv[i].K) {
			x.Failf("input %d changed", i)
		}
		if !out[i].C.Equal(want) {
			x.Failf("the share of ciphertext %d of %d is wrong", i, n)
		}
		for j := 0; j < i; j++ {
			if out[i].K.Equal(out[j].K) {
				x.Failf("ciphertexts %d and %d are switched with the same randomness", j, i)
			}
		}
	}
	x.Obs("%d", n)
}

func c08Split(x *engine.X) {
	n := splitToy(x, 3)
	m := x.Int(1, 2, "columns")
	pre := x.Bool("precomputed")
	sec, pub := c23Key(0)
	in := make([]libunlynx.CipherVector, n)
	var before []libunlynx.CipherVector
	for i := range in {
		for j := 0; j < m; j++ {
			in[i] = append(in[i], *libunlynx.EncryptInt(pub, int64(10*i+j)))
		}
		before = append(before, copyCV(in[i]))
	}
	var p []libunlynxshuffle.CipherVectorScalar
	if pre {
		p = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), pub, libunlynx.SuiTe.RandomStream(), m, 20)
	}
	var out []libunlynx.CipherVector
	var pi []int
	var beta [][]kyber.Scalar
	if !split(x, "a shuffle", m == 1, func() { out, pi, beta = libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), pub, p) }) {
		return
	}
	what := sprintf("%d rows of %d", n, m)
	for i := range in {
		if !sameCV(in[i], before[i]) {
			x.Failf("%s: the input of the shuffle changed", what)
		}
	}
	if !pre {
		c08Check(x, what, sec, in, out)
	} else if a, b := plainRows(sec, in), plainRows(sec, out); fmt.Sprint(a) != fmt.Sprint(b) {
		x.Failf("%s: the shuffled rows are not the input rows: %v instead of %v", what, b, a)
	}
	if !x.Failed() && n > 1 {
		pr, err := libunlynxshuffle.ShuffleProofCreation(in, out, libunlynx.SuiTe.Point().Base(), pub, beta, pi)
		if err != nil || !libunlynxshuffle.ShuffleProofVerification(pr, pub) {
			x.Failf("%s: the proof of the shuffle does not verify (%v)", what, err)
		}
	}
	x.Obs("%d %d %v", n, m, pre)
}

func c09Split(x *engine.X) {
	n := splitToy(x, 3)
	s := libunlynx.SuiTe
	priv, surv := sc(5), sc(11)
	cv := someCV(pt(5), n)
	in := copyCV(cv)
	var out libunlynx.CipherVector
	if !split(x, "tagging", true, func() { out = libunlynxdetertag.DeterministicTagSequence(in, priv, surv) }) {
		return
	}
	if len(out) != n {
		x.Failf("%d ciphertexts give %d results", n, len(out))
		return
	}
	for i := range out {
		if !s.Point().Mul(surv, cv[i].K).Equal(out[i].K) || !s.Point().Mul(surv, plainPoint(priv, cv[i])).Equal(out[i].C) || !sameCT(in[i], cv[i]) {
			x.Failf("ciphertext %d of %d is tagged wrongly", i, n)
		}
	}
	x.Obs("%d", n)
}

func c10Split(x *engine.X) {
	n := splitToy(x, 3)
	var cvs []libunlynx.CipherVector
	for i := 0; i < n; i++ {
		cvs = append(cvs, mkCV([]int{2, 1, 3}[i]))
	}
	dec := x.Bool("decoding")
	var enc, f func() error
	var same func() bool
	what := ""
	switch x.Choose(8, "object") {
	case 0:
		what = "list of vectors"
		var b, l []byte
		var out []libunlynx.CipherVector
		enc = func() (err error) { b, l, err = libunlynx.ArrayCipherVectorToBytes(cvs); return }
		f = func() (err error) { out, err = libunlynx.FromBytesToArrayCipherVector(b, l); return }
		same = func() bool { return sameCVs(cvs, out) }
	case 1:
		what = "message of the shuffle"
		m := protocolsunlynx.ShufflingMessage{Data: cvs}
		var b, l []byte
		var o protocolsunlynx.ShufflingMessage
		enc = func() (err error) { b, l, err = m.ToBytes(); return }
		f = func() error { return o.FromBytes(b, l) }
		same = func() bool { return sameCVs(cvs, o.Data) }
	case 2:
		what = "message of the tagging"
		m := protocolsunlynx.DeterministicTaggingMessage{Data: mkCV(n)}
		var b []byte
		var o protocolsunlynx.DeterministicTaggingMessage
		enc = func() (err error) { b, err = m.ToBytes(); return }
		f = func() error { return o.FromBytes(b) }
		same = func() bool { return sameCV(m.Data, o.Data) }
	case 3:
		what = "message of the aggregation"
		var m, o protocolsunlynx.ChildAggregatedDataMessage
		for i := 0; i < n; i++ {
			m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(sprintf("key%d", i)),
				Fr: libunlynx.FilteredResponse{GroupByEnc: mkCV(1), AggregatingAttributes: mkCV(2)}})
		}
		var b []byte
		var g, a, d int
		enc = func() (err error) { b, g, a, d, err = m.ToBytes(); return }
		f = func() error { return o.FromBytes(b, g, a, d) }
		same = func() bool {
			if len(o.ChildData) != n {
				return false
			}
			for i := range o.ChildData {
				if o.ChildData[i].DetTagGroupBy != m.ChildData[i].DetTagGroupBy || !sameFR(o.ChildData[i].Fr, m.ChildData[i].Fr) {
					return false
				}
			}
			return true
		}
	case 4:
		what = "list of precomputed values"
		var cs, out []libunlynxshuffle.CipherVectorScalar
		for i := range cvs {
			e := libunlynxshuffle.CipherVectorScalar{CipherV: cvs[i]}
			for j := range cvs[i] {
				e.S = append(e.S, sc(int64(10*i+j)))
			}
			cs = append(cs, e)
		}
		var b []libunlynxshuffle.CipherVectorScalarBytes
		enc = func() (err error) { b, err = libunlynxshuffle.EncodeCipherVectorScalar(cs); return }
		f = func() (err error) { out, err = libunlynxshuffle.DecodeCipherVectorScalar(b); return }
		same = func() bool { return sameCVS(cs, out) }
	case 5:
		what = "list of aggregation proofs"
		p := mkProofs(x, "aggregation", n, 0)
		var q *plist
		enc = func() error { return nil }
		f = func() (err error) { q, err = p.transmit(); return }
		same = func() bool { return q.len() == n && q.all(1) && sameAggr(p, q) }
	case 6:
		what = "list of key switching proofs"
		p := mkProofs(x, "keyswitch", n, 0)
		var q *plist
		enc = func() error { return nil }
		f = func() (err error) { q, err = p.transmit(); return }
		same = func() bool {
			for i := range p.ks.List {
				if !sameKS(p.ks.List[i], q.ks.List[i]) {
					return false
				}
			}
			return q.len() == n && q.all(1)
		}
	case 7:
		what = "provider's responses"
		r := clientRows(x, n)
		enc, f, same = r.encrypt, r.decode, r.same
	}
	errs := []error{nil, nil}
	if dec {
		errs[0] = enc()
		if !split(x, "decoding a "+what, false, func() { errs[1] = f() }) {
			return
		}
	} else {
		if !split(x, "encoding a "+what, false, func() { errs[0] = enc() }) {
			return
		}
		errs[1] = f()
	}
	if !need(x, errs[0], "encoding a %s of %d", what, n) || !need(x, errs[1], "decoding a %s of %d", what, n) {
		return
	}
	if !same() {
		x.Failf("a %s of %d changed", what, n)
	}
	x.Obs("%s %d %v", what, n, dec)
}

func sameAggr(p, q *plist) bool {
	for i := range p.aggr.List {
		if !sameCV(p.aggr.List[i].Data, q.aggr.List[i].Data) || !sameCT(p.aggr.List[i].AggregationResult, q.aggr.List[i].AggregationResult) {
			return false
		}
	}
	return true
}

// c12Split makes and verifies honest proofs.
func c12Split(x *engine.X) {
	n := splitToy(x, 2)
	kind := proofKinds[x.Choose(len(proofKinds), "kind")]
	making := x.Bool("making")
	var p *plist
	ok := false
	if making {
		if !split(x, "making proofs", false, func() { p = mkProofs(x, kind, n, 0) }) {
			return
		}
		if p.stErr != "" {
			x.Failf("%s: %s", kind, p.stErr)
			return
		}
		ok = p.all(1) && p.len() == n
	} else {
		if p = mkProofs(x, kind, n, 0); p.stErr != "" {
			return
		}
		if !split(x, "verifying proofs", false, func() { ok = p.all(1) }) {
			return
		}
	}
	if !ok {
		x.Failf("%s: an honest list of %d is rejected", kind, n)
	}
	x.Obs("%s %d %v", kind, n, making)
}

// c14Split verifies a list with one invalid proof.
func c14Split(x *engine.X) {
	n := splitToy(x, 2)
	kind := proofKinds[x.Choose(len(proofKinds), "kind")]
	bad := x.Choose(n, "invalid")
	p := mkProofs(x, kind, n, 0)
	if p.stErr != "" {
		return
	}
	p = p.shallow()
	p.spoil(bad)
	if p.one(bad) {
		return // C13's matter
	}
	ok := true
	if !split(x, "verifying proofs", false, func() { ok = p.all(1) }) {
		return
	}
	if ok {
		x.Failf("%s: a list of %d whose element %d is invalid is accepted", kind, n, bad)
	}
	x.Obs("%s %d %d", kind, n, bad)
}

func c19Split(x *engine.X) {
	n := splitToy(x, 3)
	var rows []libunlynx.DpClearResponse
	for i := 0; i <= n; i++ {
		g := int64(x.Choose(2, "group"))
		rows = append(rows, libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, AggregatingAttributesClear: map[string]int64{"s0": int64(1) << uint(4*i)}})
	}
	want := refClear(rows)
	var got []libunlynx.DpClearResponse
	if split(x, "adding rows", false, func() { got = libunlynxstore.AddInClear(rows) }) {
		checkClear(x, "adding rows", rows, got, want)
	}
	x.Obs("%v", rows)
}

func c23Split(x *engine.X) {
	n := splitToy(x, 3)
	r := precompReq{lineSize: x.Int(1, 2, "columns")}
	_, pub := c23Key(r.key)
	var p []libunlynxshuffle.CipherVectorScalar
	if split(x, "precomputing", r.lineSize == 1, func() {
		p = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), pub, libunlynx.SuiTe.RandomStream(), r.lineSize, n)
	}) {
		if len(p) != n {
			x.Failf("%d lines instead of %d", len(p), n)
			return
		}
		checkPrecomp(x, "precomputing", r, p, nil)
	}
	x.Obs("%d %d", n, r.lineSize)
}
