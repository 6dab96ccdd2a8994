package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/toy"
	"unlynxverif/verifreset"
	"unlynxverif/vsched"
)

func init() {
	const treeAssume = "per-link FIFO order of messages (TCP); the explorer decides between links"
	Props["C07"] = Info{Level: "model_checking", Rule: "every tree shape over up to 4 (5 thorough) servers, every vector length around the work-split size, every kind of target key, with and without proofs, through real servers; and every order in which the network can deliver the messages of a switch (sleep-set reduced), for every tree of 3 servers and the widest of 4 (all of 4 and the widest of 5 thorough).",
		Assume: []string{treeAssume, "toy group for the shape space, Ed25519 with seeded randomness on the same driver"}}
	Props["C08"] = Info{Level: "model_checking", Rule: "one shuffle: every permutation and every choice of rows (with equal rows, shared randomness and neutral ciphertexts) up to 4 (5 thorough) rows, fresh and precomputed; whole tree: every tree over up to 4 servers, all permutations of every server for 2 rows (3 thorough), every row shape; every delivery order.",
		Assume: []string{treeAssume, "toy group of prime order 2^61-1 (equal randomness has negligible probability), Ed25519 on the same driver"}}
	Props["C09"] = Info{Level: "model_checking", Rule: "every tree over up to 4 servers, every root, every vector of values over a small alphabet (equal and different values at every position), different randomness; tags of two requests by two different roots are compared with each other; the combined shuffle-and-tag protocol is checked for the same root; every delivery order.",
		Assume: []string{treeAssume, "every server uses one survey secret per survey", "combined protocol: requests of the same root (its tags depend on the order of the servers by design)"}}
	Props["C15"] = Info{Level: "model_checking", Rule: "every assignment of group subsets to the servers (including none), every tree over up to 3 (4 thorough) servers, numbers of attributes, group list sizes, plain vectors instead of groups, with and without proofs, through real servers; and every delivery order of the messages, for every tree of 3 servers and the widest of 4 (all of 4 thorough), with servers holding different numbers of groups.",
		Assume: []string{treeAssume, "grouping keys of one survey have one length and all rows of a server one shape (services guarantee both)"}}
	for n, f := range map[string]onet.NewProtocol{
		"KS": protocolsunlynx.NewKeySwitchingProtocol, "Shuffle": protocolsunlynx.NewShufflingProtocol, "DDT": protocolsunlynx.NewDeterministicTaggingProtocol,
		"ShuffleDDT": protocolsunlynx.NewShufflingPlusDDTProtocol, "Aggr": protocolsunlynx.NewCollectiveAggregationProtocol,
	} {
		f := f
		if _, err := onet.GlobalProtocolRegister("VerifTree"+n, func(t *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
			pi, err := f(t)
			if err != nil {
				return nil, err
			}
			treeMu.Lock()
			h := treeHook
			treeMu.Unlock()
			h(pi, t)
			return pi, nil
		}); err != nil {
			panic(err)
		}
	}
	for _, s := range []struct {
		n, p string
		run  func(*engine.X)
	}{{"c07-shapes", "C07", c07Shapes}, {"c07-orders", "C07", c07Orders}, {"c07-related", "C07", c07Related}, {"c08-once", "C08", c08Once}, {"c08-trees", "C08", c08Trees}, {"c08-orders", "C08", c08Orders},
		{"c09-trees", "C09", c09Trees}, {"c09-values", "C09", c09Values}, {"c09-related", "C09", c09Related}, {"c09-orders", "C09", c09Orders}, {"c09-combined", "C09", c09Combined}, {"c09-combined-orders", "C09", c09CombinedOrders},
		{"c15-groups", "C15", c15Groups}, {"c15-sizes", "C15", c15Sizes}, {"c15-orders", "C15", c15Orders}, {"c15-related", "C15", c15Related}} {
		engine.Register(&engine.Scenario{Name: s.n, Prop: s.p, Run: s.run})
	}
}

var (
	treeMu   sync.Mutex
	treeHook func(onet.ProtocolInstance, *onet.TreeNodeInstance)
)

// tree is a tree over the servers of a cluster.
type tree struct {
	*onet.Tree
	desc string
	root int // server at the root
	n    int

	stmts bool // schedule the statements, too
}

// mkTree builds the tree in which node i+1 hangs below node parent[i] and node
// i is server (i+rot) mod n.
func mkTree(c *cluster.Cluster, parent []int, rot int) *tree {
	n := len(parent) + 1
	nodes := make([]*onet.TreeNode, n)
	for i := range nodes {
		s := (i + rot) % n
		nodes[i] = onet.NewTreeNode(s, c.Roster.List[s])
		if i > 0 {
			nodes[parent[i-1]].AddChild(nodes[i])
		}
	}
	return &tree{Tree: onet.NewTree(c.Roster, nodes[0]), desc: sprintf("%d servers, parents %v, root %d", n, parent, rot%n), root: rot % n, n: n}
}

// pickTree enumerates all trees with lo..hi servers.
func pickTree(x *engine.X, lo, hi int) []int {
	n := x.Int(lo, hi, "servers")
	var p []int
	for i := 1; i < n; i++ {
		p = append(p, x.Choose(i, "parent"))
	}
	return p
}

func idx(c *cluster.Cluster, t *onet.TreeNodeInstance) int {
	i, _ := c.Roster.Search(t.ServerIdentity().ID)
	return i
}

func collective(c *cluster.Cluster) kyber.Scalar {
	k := libunlynx.SuiTe.Scalar().Zero()
	for _, s := range c.Servers {
		k.Add(k, c.Local.GetPrivate(s))
	}
	return k
}

// runTree starts a protocol on the tree and waits for its result; fifo delivers
// the messages in their order instead of asking the explorer.
func runTree(x *engine.X, c *cluster.Cluster, t *tree, name string, fifo bool, hook func(onet.ProtocolInstance, int), recv func(onet.ProtocolInstance) interface{}) (interface{}, bool) {
	treeMu.Lock()
	treeHook = func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) { hook(pi, idx(c, tn)) }
	treeMu.Unlock()
	c.Hold()
	c.FIFO = fifo
	pi, err := c.Local.CreateProtocol("VerifTree"+name, t.Tree)
	if err != nil {
		x.Failf("%s: cannot create the protocol: %v", t.desc, err)
		return nil, false
	}
	if t.stmts {
		c.AllStmts(treeSites)
		defer vsched.Stop()
	}
	var mu sync.Mutex
	var res interface{}
	var fail string
	got := false
	go func() {
		defer func() {
			if r := recover(); r != nil {
				mu.Lock()
				fail = sprintf("start panics: %v", r)
				mu.Unlock()
			}
		}()
		if err := pi.Start(); err != nil {
			mu.Lock()
			fail = sprintf("start fails: %v", err)
			mu.Unlock()
		}
	}()
	go func() {
		r := recv(pi)
		mu.Lock()
		res, got = r, true
		mu.Unlock()
	}()
	done := func() bool { mu.Lock(); defer mu.Unlock(); return got || fail != "" }
	c.Run(done, 25*time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if fail != "" {
		x.Failf("%s: %s", t.desc, fail)
		return nil, false
	}
	if !got {
		x.Failf("%s: no result (messages delivered: %v)", t.desc, c.Trace)
		return nil, false
	}
	return res, true
}

// inCluster runs body with n servers on the current suite.
func inCluster(x *engine.X, n int, body func(c *cluster.Cluster)) {
	cluster.Bubble(x, func() {
		var c *cluster.Cluster
		if libunlynx.SuiTe == realSuite {
			c = cluster.New(x, n, realSuite)
		} else {
			c = cluster.New(x, n, toySuite)
		}
		defer c.Close()
		body(c)
	})
}

// ------------------------------------------------------------------ C07

func c07Run(x *engine.X, c *cluster.Cluster, t *tree, in libunlynx.CipherVector, pub kyber.Point, proofs, fifo bool) libunlynx.CipherVector {
	before := copyCV(in)
	var mu sync.Mutex
	np := 0
	r, ok := runTree(x, c, t, "KS", fifo, func(pi onet.ProtocolInstance, s int) {
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		p.Proofs = proofs
		p.ProofFunc = func(pubKey, targetPubKey kyber.Point, secretKey kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
			pr, err := libunlynxkeyswitch.KeySwitchListProofCreation(pubKey, targetPubKey, secretKey, ks2s, rBNegs, vis)
			if err != nil || !libunlynxkeyswitch.KeySwitchListProofVerification(pr, 1) {
				x.Failf("%s: the proof of server %d over %d ciphertexts does not verify (%v)", t.desc, s, len(in), err)
			}
			mu.Lock()
			np++
			mu.Unlock()
			return &pr
		}
		if s == t.root {
			p.TargetOfSwitch = &in
			p.TargetPublicKey = &pub
		}
	}, func(pi onet.ProtocolInstance) interface{} {
		return <-pi.(*protocolsunlynx.KeySwitchingProtocol).FeedbackChannel
	})
	if !ok {
		return nil
	}
	if !sameCV(in, before) {
		x.Failf("%s: the input of the switch changed", t.desc)
	}
	mu.Lock()
	defer mu.Unlock()
	if proofs && np != t.n {
		x.Failf("%s: %d servers prove their switch instead of %d", t.desc, np, t.n)
	}
	return r.(libunlynx.CipherVector)
}

func c07Check(x *engine.X, t *tree, sec, target kyber.Scalar, in, out libunlynx.CipherVector) {
	if x.Failed() {
		return
	}
	if len(out) != len(in) {
		x.Failf("%s: %d ciphertexts become %d", t.desc, len(in), len(out))
		return
	}
	for i := range out {
		if !plainPoint(target, out[i]).Equal(plainPoint(sec, in[i])) {
			x.Failf("%s: ciphertext %d of %d decrypts to another value under the target key", t.desc, i, len(in))
			return
		}
	}
}

// someCV builds n ciphertexts: encryptions of positive, negative and zero
// values and ciphertexts without randomness.
func someCV(pub kyber.Point, n int) libunlynx.CipherVector {
	cv := make(libunlynx.CipherVector, n)
	for i := range cv {
		cv[i] = *libunlynx.EncryptInt(pub, int64([]int{3, -2, 0, 3, 100, -7, 1}[i%7]))
		if i%4 == 2 {
			cv[i] = libunlynx.IntToCipherText(int64(5 * i))
		}
	}
	return cv
}

// relCV builds ciphertexts of vals under the key sec. Every one has fresh or no
// randomness or shares its first or its second part with the one before.
func relCV(x *engine.X, sec kyber.Scalar, vals []int64) libunlynx.CipherVector {
	S := libunlynx.SuiTe
	var cv libunlynx.CipherVector
	var r kyber.Scalar
	for i, v := range vals {
		n := 4
		if i == 0 {
			n = 2
		}
		switch x.Choose(n, "randomness") {
		case 0:
			r = S.Scalar().Pick(S.RandomStream())
		case 1:
			r = S.Scalar().Zero()
		case 3:
			d := S.Scalar().SetInt64(vals[i-1] - v)
			r = S.Scalar().Add(r, d.Div(d, sec))
		}
		K := S.Point().Mul(r, nil)
		cv = append(cv, libunlynx.CipherText{K: K, C: S.Point().Add(S.Point().Mul(S.Scalar().SetInt64(v), nil), S.Point().Mul(sec, K))})
	}
	return cv
}

// relVals chooses lo..hi values.
func relVals(x *engine.X, lo, hi int) []int64 {
	v := make([]int64, x.Int(lo, hi, "values"))
	for i := range v {
		v[i] = []int64{0, 5}[x.Choose(2, "value")]
	}
	return v
}

func c07Related(x *engine.X) {
	useToy(7)
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	vals := relVals(x, 1, hi)
	verifreset.Set("VPARALLELIZE", 3)
	inCluster(x, 2, func(c *cluster.Cluster) {
		t := mkTree(c, []int{0}, 0)
		sec := collective(c)
		target, pub := libunlynx.GenKey()
		in := relCV(x, sec, vals)
		out := c07Run(x, c, t, in, pub, false, true)
		c07Check(x, t, sec, target, in, out)
	})
	x.Obs("%v", vals)
}

func c07Shapes(x *engine.X) {
	hi := 4
	if x.Thorough() {
		hi = 5
	}
	par := pickTree(x, 1, hi)
	n := x.PickI("ciphertexts", 0, 1, 2, 3, 5)
	if suiteSmall(x); libunlynx.SuiTe == realSuite && (n != 3 || len(par) > 2) {
		return
	}
	verifreset.Set("VPARALLELIZE", 2)
	rot := x.Choose(2, "root")
	kind := x.Choose(3, "target key")
	proofs := x.Bool("proofs")
	if kind > 0 && proofs && !x.Thorough() {
		return
	}
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		sec := collective(c)
		target, pub := libunlynx.GenKey()
		switch kind {
		case 1: // the key of a server
			target = c.Local.GetPrivate(c.Servers[len(par)/2])
			pub = libunlynx.SuiTe.Point().Mul(target, nil)
		case 2: // the collective key
			target = sec
			pub = libunlynx.SuiTe.Point().Mul(target, nil)
		}
		in := someCV(c.Roster.Aggregate, n)
		out := c07Run(x, c, t, in, pub, proofs, true)
		c07Check(x, t, sec, target, in, out)
	})
	x.Obs("%v %d %d %d %v", par, n, rot, kind, proofs)
}

// orderTrees enumerates the trees whose message orders are all explored.
func orderTrees(x *engine.X, chainOf4 bool) []int {
	shapes := [][]int{{0}, {0, 0}, {0, 1}, {0, 0, 0}}
	if x.Thorough() {
		shapes = append(shapes, [][]int{{0, 0, 1}, {0, 1, 1}, {0, 1, 2}, {0, 0, 0, 0}, {0, 0, 1, 1}}...)
	}
	return shapes[x.Choose(len(shapes), "tree")]
}

func c07Orders(x *engine.X) {
	useToy(7)
	par := orderTrees(x, true)
	n := x.PickI("ciphertexts", 0, 2)
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, 0)
		target, pub := libunlynx.GenKey()
		in := someCV(c.Roster.Aggregate, n)
		out := c07Run(x, c, t, in, pub, false, false)
		c07Check(x, t, collective(c), target, in, out)
	})
	x.Obs("%v %d", par, n)
}

// ------------------------------------------------------------------ C08

// rowsOf builds rows whose plaintexts are given; share makes equal rows share
// their ciphertexts.
func rowsOf(pub kyber.Point, plain [][]int64, share bool) []libunlynx.CipherVector {
	var r []libunlynx.CipherVector
	seen := map[string]libunlynx.CipherVector{}
	for _, p := range plain {
		k := fmt.Sprint(p)
		if cv, ok := seen[k]; ok && share {
			r = append(r, copyCV(cv))
			continue
		}
		cv := make(libunlynx.CipherVector, len(p))
		for i, v := range p {
			cv[i] = *libunlynx.EncryptInt(pub, v)
		}
		seen[k] = cv
		r = append(r, cv)
	}
	return r
}

func plainRows(sec kyber.Scalar, rows []libunlynx.CipherVector) []string {
	var r []string
	for _, row := range rows {
		var s []string
		for _, e := range row {
			s = append(s, plainPoint(sec, e).String())
		}
		r = append(r, strings.Join(s, ","))
	}
	sort.Strings(r)
	return r
}

// c08Check compares input and output of a shuffle.
func c08Check(x *engine.X, what string, sec kyber.Scalar, in, out []libunlynx.CipherVector) {
	if x.Failed() {
		return
	}
	a, b := plainRows(sec, in), plainRows(sec, out)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		x.Failf("%s: the shuffled rows are not the input rows: %v instead of %v", what, b, a)
		return
	}
	for i, r := range out {
		for j, e := range r {
			for k, q := range in {
				for l, f := range q {
					if e.K.Equal(f.K) || e.C.Equal(f.C) {
						x.Failf("%s: element %d of output row %d has a part of element %d of input row %d (not re-randomised)", what, j, i, l, k)
						return
					}
				}
			}
		}
	}
	for i, r := range out {
		for j, e := range r {
			for k := 0; k <= i; k++ {
				for l, f := range out[k] {
					if (k < i || l < j) && e.K.Equal(f.K) {
						x.Failf("%s: two ciphertexts of the output share their randomness", what)
						return
					}
				}
			}
		}
	}
}

// drawPerms lets the explorer decide the random permutations (the 8-byte draws
// of the random stream); scalars come from the seeded source.
func drawPerms(x *engine.X, rows, shuffles int) {
	def := toy.Draw
	n := 0
	classes := []int{1, 1, 2, 6, 12, 60}[rows] // all residues modulo 2..rows; 0 is drawn again by the library
	toy.Draw = func(kind string) uint64 {
		if kind == "stream" && n < (rows-1)*shuffles {
			n++
			return uint64(1 + x.Choose(classes, "permutation"))
		}
		return def(kind)
	}
}

func c08Once(x *engine.X) {
	useToy(8)
	verifreset.Set("VPARALLELIZE", 2)
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	n := x.Int(1, hi, "rows")
	m := x.Int(1, 3, "columns")
	share := x.Bool("equal rows share ciphertexts")
	sec, pub := libunlynx.GenKey()
	plain := make([][]int64, n)
	for i := range plain {
		v := int64(x.Choose(2, "row"))
		for j := 0; j < m; j++ {
			plain[i] = append(plain[i], v+int64(10*(j%2)))
		}
	}
	in := rowsOf(pub, plain, share)
	if x.Bool("neutral") {
		in[0] = *libunlynx.NewCipherVector(m)
	}
	var pre []libunlynxshuffle.CipherVectorScalar
	prec := x.PickI("precomputed lines", 0, 1, 4)
	if prec > 0 {
		pre = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), pub, libunlynx.SuiTe.XOF([]byte("s")), 2*m, prec)
	}
	before := make([]libunlynx.CipherVector, n)
	for i := range in {
		before[i] = copyCV(in[i])
	}
	if prec == 0 {
		drawPerms(x, n, 1)
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), pub, pre)
	toy.ResetDraw(8)
	for i := range in {
		if !sameCV(in[i], before[i]) {
			x.Failf("the input of the shuffle changed")
		}
	}
	what := sprintf("%d rows of %d, %d precomputed lines", n, m, prec)
	if prec == 0 {
		c08Check(x, what, sec, in, out)
	} else {
		// precomputed randomness is drawn from a small set, it may be used twice
		a, b := plainRows(sec, in), plainRows(sec, out)
		if fmt.Sprint(a) != fmt.Sprint(b) {
			x.Failf("%s: the shuffled rows are not the input rows: %v instead of %v", what, b, a)
		}
		for _, r := range out {
			for _, e := range r {
				for _, q := range in {
					for _, f := range q {
						if sameCT(e, f) || e.K.Equal(f.K) {
							x.Failf("%s: a ciphertext is not re-randomised", what)
							return
						}
					}
				}
			}
		}
	}
	if n > 0 && m > 0 && !x.Failed() {
		p, err := libunlynxshuffle.ShuffleProofCreation(in, out, libunlynx.SuiTe.Point().Base(), pub, beta, pi)
		if err != nil || !libunlynxshuffle.ShuffleProofVerification(p, pub) {
			x.Count("proof not verified", 1)
			if n > 1 {
				x.Failf("%s: the proof of the shuffle does not verify (%v)", what, err)
			}
		}
	}
	x.Obs("%v %v", plain, pi)
}

type c08opt struct {
	pre, proofs, fifo bool
}

func c08Run(x *engine.X, c *cluster.Cluster, t *tree, in []libunlynx.CipherVector, o c08opt) []libunlynx.CipherVector {
	before := make([]libunlynx.CipherVector, len(in))
	for i := range in {
		before[i] = copyCV(in[i])
	}
	var mu sync.Mutex
	np := 0
	r, ok := runTree(x, c, t, "Shuffle", o.fifo, func(pi onet.ProtocolInstance, s int) {
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		p.Proofs = o.proofs
		p.ProofFunc = func(target, shuffled []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
			pr, err := libunlynxshuffle.ShuffleProofCreation(target, shuffled, libunlynx.SuiTe.Point().Base(), key, beta, perm)
			if err != nil || !libunlynxshuffle.ShuffleProofVerification(pr, c.Roster.Aggregate) {
				x.Failf("%s: the shuffle proof of server %d does not verify (%v)", t.desc, s, err)
			}
			mu.Lock()
			np++
			mu.Unlock()
			return &pr
		}
		if o.pre {
			p.Precomputed = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), c.Roster.Aggregate, libunlynx.SuiTe.XOF([]byte{byte(s)}), 8, 10)
		}
		if s == t.root {
			p.ShuffleTarget = &in
		}
	}, func(pi onet.ProtocolInstance) interface{} {
		return <-pi.(*protocolsunlynx.ShufflingProtocol).FeedbackChannel
	})
	if !ok {
		return nil
	}
	for i := range in {
		if !sameCV(in[i], before[i]) {
			x.Failf("%s: the input of the shuffle changed", t.desc)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if o.proofs && np != t.n {
		x.Failf("%s: %d servers prove their shuffle instead of %d", t.desc, np, t.n)
	}
	return r.([]libunlynx.CipherVector)
}

func c08Trees(x *engine.X) {
	par := pickTree(x, 1, 4)
	rows := x.Int(1, 3, "rows")
	cols := x.Int(1, 3, "columns")
	if suiteSmall(x); libunlynx.SuiTe == realSuite && (rows != 3 || cols != 2 || len(par) != 2) {
		return
	}
	verifreset.Set("VPARALLELIZE", 2)
	rot := 0
	if len(par) > 0 {
		rot = x.Choose(2, "root")
	}
	o := c08opt{fifo: true, pre: x.Bool("precomputed"), proofs: rows > 1 && x.Bool("proofs")}
	perm := rows == 2 && cols == 1 && !o.pre && !o.proofs && libunlynx.SuiTe != realSuite
	dup := x.Bool("equal rows")
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		plain := make([][]int64, rows)
		for i := range plain {
			for j := 0; j < cols; j++ {
				plain[i] = append(plain[i], int64(10*i+j))
			}
		}
		if dup {
			plain[rows-1] = plain[0]
		}
		in := rowsOf(c.Roster.Aggregate, plain, dup)
		if perm {
			drawPerms(x, rows, len(par)+1)
		}
		out := c08Run(x, c, t, in, o)
		toy.ResetDraw(9)
		if o.pre && !x.Failed() {
			a, b := plainRows(collective(c), in), plainRows(collective(c), out)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				x.Failf("%s: the shuffled rows are not the input rows: %v instead of %v", t.desc, b, a)
			}
			for _, r := range out {
				for _, e := range r {
					for _, q := range in {
						for _, f := range q {
							if sameCT(e, f) {
								x.Failf("%s: a ciphertext is not re-randomised", t.desc)
							}
						}
					}
				}
			}
			return
		}
		c08Check(x, t.desc, collective(c), in, out)
	})
	x.Obs("%v %d %d %v", par, rows, cols, o)
}

func c08Orders(x *engine.X) {
	useToy(8)
	par := orderTrees(x, true)
	rot := x.Choose(2, "root")
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		in := rowsOf(c.Roster.Aggregate, [][]int64{{1, 2}, {3, 4}, {1, 2}}, false)
		out := c08Run(x, c, t, in, c08opt{})
		c08Check(x, t.desc, collective(c), in, out)
	})
	x.Obs("%v", par)
}

// ------------------------------------------------------------------ C09

func surveySecrets(n int) []kyber.Scalar {
	var r []kyber.Scalar
	for i := 0; i < n; i++ {
		k, _ := libunlynx.GenKey()
		r = append(r, k)
	}
	return r
}

func c09Run(x *engine.X, c *cluster.Cluster, t *tree, secrets []kyber.Scalar, in libunlynx.CipherVector, proofs, fifo bool) []string {
	before := copyCV(in)
	r, ok := runTree(x, c, t, "DDT", fifo, func(pi onet.ProtocolInstance, s int) {
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		p.Proofs = proofs
		k := secrets[s].Clone()
		p.SurveySecretKey = &k
		if s == t.root {
			p.TargetOfSwitch = &in
		}
	}, func(pi onet.ProtocolInstance) interface{} {
		return <-pi.(*protocolsunlynx.DeterministicTaggingProtocol).FeedbackChannel
	})
	if !ok {
		return nil
	}
	if !sameCV(in, before) {
		x.Failf("%s: the input of the tagging changed", t.desc)
	}
	var tags []string
	for _, e := range r.([]libunlynx.DeterministCipherText) {
		tags = append(tags, e.Point.String())
	}
	if len(tags) != len(in) {
		x.Failf("%s: %d values get %d tags", t.desc, len(in), len(tags))
		return nil
	}
	return tags
}

// c09Same checks that tags are equal exactly when the values are.
func c09Same(x *engine.X, what string, vals []int64, tags []string) {
	if x.Failed() {
		return
	}
	for i := range vals {
		for j := 0; j < i; j++ {
			if (vals[i] == vals[j]) != (tags[i] == tags[j]) {
				x.Failf("%s: values %d and %d (%d, %d) get tags %s and %s", what, j, i, vals[j], vals[i], tags[j], tags[i])
				return
			}
		}
	}
}

func encAll(pub kyber.Point, v []int64) libunlynx.CipherVector {
	cv := make(libunlynx.CipherVector, len(v))
	for i, e := range v {
		cv[i] = *libunlynx.EncryptInt(pub, e)
		if e == 9 { // known to everybody, without randomness
			cv[i] = libunlynx.IntToCipherText(e)
		}
	}
	return cv
}

func c09Pair(x *engine.X, c *cluster.Cluster, par []int, par2 []int, rot int, v1, v2 []int64, proofs bool) {
	secrets := surveySecrets(len(par) + 1)
	t1, t2 := mkTree(c, par, 0), mkTree(c, par2, rot)
	a := c09Run(x, c, t1, secrets, encAll(c.Roster.Aggregate, v1), proofs, true)
	if x.Failed() {
		return
	}
	b := c09Run(x, c, t2, secrets, encAll(c.Roster.Aggregate, v2), proofs, true)
	if x.Failed() {
		return
	}
	c09Same(x, sprintf("%s and %s", t1.desc, t2.desc), append(append([]int64{}, v1...), v2...), append(append([]string{}, a...), b...))
}

func c09Trees(x *engine.X) {
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	par := pickTree(x, 1, hi)
	var par2 []int
	for i := range par {
		par2 = append(par2, x.Choose(i+1, "parent in the second request"))
	}
	rot := 0
	if len(par) > 0 {
		rot = x.Choose(len(par)+1, "root of the second request")
	}
	suiteSmall(x)
	verifreset.Set("VPARALLELIZE", 2)
	proofs := x.Bool("proofs")
	if proofs && len(par) > 2 {
		return
	}
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		c09Pair(x, c, par, par2, rot, []int64{1, 0, -3, 1, 9}, []int64{9, 0, 2, 1}, proofs)
	})
	x.Obs("%v %v %d %v", par, par2, rot, proofs)
}

func c09Values(x *engine.X) {
	useToy(9)
	verifreset.Set("VPARALLELIZE", 2)
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	n1, n2 := x.Int(0, hi, "values"), x.Int(0, 2, "values of the second request")
	var v1, v2 []int64
	for i := 0; i < n1; i++ {
		v1 = append(v1, []int64{0, 1, -1}[x.Choose(3, "value")])
	}
	for i := 0; i < n2; i++ {
		v2 = append(v2, []int64{0, 1, 9}[x.Choose(3, "value")])
	}
	inCluster(x, 2, func(c *cluster.Cluster) { c09Pair(x, c, []int{0}, []int{0}, 1, v1, v2, false) })
	x.Obs("%v %v", v1, v2)
}

func c09Related(x *engine.X) {
	useToy(9)
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	v1 := relVals(x, 2, hi)
	v2 := []int64{5, 0}
	verifreset.Set("VPARALLELIZE", 3)
	inCluster(x, 2, func(c *cluster.Cluster) {
		secrets := surveySecrets(2)
		t1, t2 := mkTree(c, []int{0}, 0), mkTree(c, []int{0}, 1)
		a := c09Run(x, c, t1, secrets, relCV(x, collective(c), v1), false, true)
		if x.Failed() {
			return
		}
		b := c09Run(x, c, t2, secrets, relCV(x, collective(c), v2), false, true)
		c09Same(x, "2 servers", append(append([]int64{}, v1...), v2...), append(a, b...))
	})
	x.Obs("%v", v1)
}

func c09Orders(x *engine.X) {
	useToy(9)
	par := orderTrees(x, false)
	rot := x.Choose(2, "root")
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		v := []int64{4, 5, 4}
		tags := c09Run(x, c, t, surveySecrets(len(par)+1), encAll(c.Roster.Aggregate, v), false, false)
		c09Same(x, t.desc, v, tags)
	})
	x.Obs("%v", par)
}

func c09CRun(x *engine.X, c *cluster.Cluster, t *tree, secrets []kyber.Scalar, in []libunlynx.CipherVector, proofs, pre, fifo bool) [][]string {
	before := make([]libunlynx.CipherVector, len(in))
	for i := range in {
		before[i] = copyCV(in[i])
	}
	r, ok := runTree(x, c, t, "ShuffleDDT", fifo, func(pi onet.ProtocolInstance, s int) {
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		p.Proofs = proofs
		k := secrets[s].Clone()
		p.SurveySecretKey = &k
		if pre {
			// what is left of the collective key when the data reaches this server
			key := c.Roster.Aggregate.Clone()
			l := t.List()
			for i := 1; i <= len(l); i++ {
				if l[i%len(l)].RosterIndex == s {
					break
				}
				key.Sub(key, l[i%len(l)].ServerIdentity.Public)
			}
			p.Precomputed = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), key, libunlynx.SuiTe.XOF([]byte{byte(s)}), 8, 10)
		}
		if s == t.root {
			p.TargetData = &in
		}
	}, func(pi onet.ProtocolInstance) interface{} {
		return <-pi.(*protocolsunlynx.ShufflingPlusDDTProtocol).FeedbackChannel
	})
	if !ok {
		return nil
	}
	for i := range in {
		if !sameCV(in[i], before[i]) {
			x.Failf("%s: the input of the protocol changed", t.desc)
		}
	}
	var tags [][]string
	for _, row := range r.([]libunlynx.DeterministCipherVector) {
		var s []string
		for _, e := range row {
			s = append(s, e.Point.String())
		}
		tags = append(tags, s)
	}
	return tags
}

// c09Match checks that there is a bijection between values and tags under which
// the multiset of tagged rows is the multiset of rows.
func c09Match(x *engine.X, what string, sets [][][]int64, tags [][][]string) {
	if x.Failed() {
		return
	}
	val, tg := map[int64]int{}, map[string]int{}
	for _, rows := range sets {
		for _, r := range rows {
			for _, v := range r {
				val[v]++
			}
		}
	}
	var vs []int64
	for v := range val {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, rows := range tags {
		for _, r := range rows {
			for _, t := range r {
				tg[t]++
			}
		}
	}
	if len(tg) != len(vs) {
		x.Failf("%s: %d different values get %d different tags", what, len(vs), len(tg))
		return
	}
	var ts []string
	for t := range tg {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	canon := func(rows [][]string) string {
		var s []string
		for _, r := range rows {
			s = append(s, strings.Join(r, "|"))
		}
		sort.Strings(s)
		return strings.Join(s, ";")
	}
	var want []string
	for _, rows := range tags {
		want = append(want, canon(rows))
	}
	used := make([]bool, len(ts))
	m := map[int64]string{}
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(vs) {
			for k, rows := range sets {
				var q [][]string
				for _, r := range rows {
					var s []string
					for _, v := range r {
						s = append(s, m[v])
					}
					q = append(q, s)
				}
				if canon(q) != want[k] {
					return false
				}
			}
			return true
		}
		for j := range ts {
			if !used[j] && val[vs[i]] == tg[ts[j]] {
				used[j] = true
				m[vs[i]] = ts[j]
				if try(i + 1) {
					return true
				}
				used[j] = false
			}
		}
		return false
	}
	if !try(0) {
		x.Failf("%s: the tagged rows are not a shuffle of the rows %v: %v", what, sets, tags)
	}
}

func c09Combined(x *engine.X) {
	par := pickTree(x, 1, 4)
	if suiteSmall(x); libunlynx.SuiTe == realSuite && len(par) != 2 {
		return
	}
	verifreset.Set("VPARALLELIZE", 2)
	rot := 0
	if len(par) > 0 {
		rot = x.Choose(2, "root")
	}
	pre := x.Bool("precomputed")
	sets := [][][]int64{{{1, 2, 1}, {2, 1, 3}, {1, 2, 1}}, {{3, 1}}, {{1}, {1}}, {{2}, {1, 2, 3, 4}}}
	first := x.Choose(3, "first request")
	second := x.Choose(3, "second request")
	proofs := first == 0 && x.Bool("proofs")
	if proofs && (libunlynx.SuiTe == realSuite || second != 2) {
		return
	}
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		secrets := surveySecrets(len(par) + 1)
		var tags [][][]string
		for i, k := range []int{first, second} {
			r := c09CRun(x, c, t, secrets, rowsOf(c.Roster.Aggregate, sets[k], false), proofs && i == 0, pre, true)
			if x.Failed() {
				return
			}
			tags = append(tags, r)
		}
		c09Match(x, t.desc, [][][]int64{sets[first], sets[second]}, tags)
	})
	x.Obs("%v %d %d %d", par, rot, first, second)
}

func c09CombinedOrders(x *engine.X) {
	useToy(9)
	par := orderTrees(x, false)
	rot := x.Choose(2, "root")
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		rows := [][]int64{{1, 2}, {2, 2}, {1, 3}}
		r := c09CRun(x, c, t, surveySecrets(len(par)+1), rowsOf(c.Roster.Aggregate, rows, false), false, false, false)
		if !x.Failed() {
			c09Match(x, t.desc, [][][]int64{rows}, [][][]string{r})
		}
	})
	x.Obs("%v", par)
}

// ------------------------------------------------------------------ C15

type aggGroup struct {
	group []int64
	attrs []int64
}

func aggMap(enc func([]int64) libunlynx.CipherVector, m map[string]aggGroup) map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
	r := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for _, k := range sortedGroups(m) {
		r[libunlynx.GroupingKey(k)] = libunlynx.FilteredResponse{GroupByEnc: enc(m[k].group), AggregatingAttributes: enc(m[k].attrs)}
	}
	return r
}

func sortedGroups(m map[string]aggGroup) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// c15Run aggregates data (one map per server; simple: plain vectors) and checks
// the result.
func c15Run(x *engine.X, c *cluster.Cluster, t *tree, data []map[string]aggGroup, simple, proofs, fifo bool) {
	c15RunEnc(x, c, t, data, simple, proofs, fifo, func(v []int64) libunlynx.CipherVector { return encAll(c.Roster.Aggregate, v) })
}

func c15RunEnc(x *engine.X, c *cluster.Cluster, t *tree, data []map[string]aggGroup, simple, proofs, fifo bool, enc func([]int64) libunlynx.CipherVector) {
	sec := collective(c)
	want := map[string]aggGroup{}
	for _, m := range data {
		for k, g := range m {
			w, ok := want[k]
			if !ok {
				w = aggGroup{group: g.group}
			}
			a := append([]int64{}, w.attrs...)
			for i, v := range g.attrs {
				if i < len(a) {
					a[i] += v
				} else {
					a = append(a, v)
				}
			}
			w.attrs = a
			want[k] = w
		}
	}
	in := make([]map[libunlynx.GroupingKey]libunlynx.FilteredResponse, len(data))
	sd := make([][]libunlynx.CipherText, len(data))
	for i, m := range data {
		in[i] = aggMap(enc, m)
		for _, e := range in[i][""].AggregatingAttributes {
			sd[i] = append(sd[i], e)
		}
	}
	var mu sync.Mutex
	np := 0
	r, ok := runTree(x, c, t, "Aggr", fifo, func(pi onet.ProtocolInstance, s int) {
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		p.Proofs = proofs
		p.ProofFunc = func(data []libunlynx.CipherVector, res libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
			pr := libunlynxaggr.AggregationListProofCreation(data, res)
			if !libunlynxaggr.AggregationListProofVerification(pr, 1) {
				x.Failf("%s: the aggregation proof of server %d does not verify", t.desc, s)
			}
			mu.Lock()
			np++
			mu.Unlock()
			return &pr
		}
		if simple {
			p.SimpleData = &sd[s]
		} else {
			p.GroupedData = &in[s]
		}
	}, func(pi onet.ProtocolInstance) interface{} {
		return <-pi.(*protocolsunlynx.CollectiveAggregationProtocol).FeedbackChannel
	})
	if !ok {
		return
	}
	got := r.(protocolsunlynx.CothorityAggregatedData).GroupedData
	if len(got) != len(want) {
		x.Failf("%s, data %v: %d groups instead of %d", t.desc, data, len(got), len(want))
		return
	}
	for k, w := range want {
		g, ok := got[libunlynx.GroupingKey(k)]
		if !ok {
			x.Failf("%s, data %v: no group %q", t.desc, data, k)
			return
		}
		if len(g.AggregatingAttributes) != len(w.attrs) || len(g.GroupByEnc) != len(w.group) {
			x.Failf("%s, data %v: group %q has %d attributes and %d group values", t.desc, data, k, len(g.AggregatingAttributes), len(g.GroupByEnc))
			return
		}
		for i, v := range w.attrs {
			if !encodes(sec, g.AggregatingAttributes[i], v) {
				x.Failf("%s, data %v: attribute %d of group %q is not %d", t.desc, data, i, k, v)
				return
			}
		}
		for i, v := range w.group {
			if !encodes(sec, g.GroupByEnc[i], v) {
				x.Failf("%s, data %v: value %d of group %q is not %d", t.desc, data, i, k, v)
				return
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if proofs && np != t.n {
		x.Failf("%s: %d servers prove their aggregation instead of %d", t.desc, np, t.n)
	}
}

// c15Data gives every server a subset of the groups; values differ by server,
// group and attribute.
func c15Data(sub []int, ngroups, nattr, ngb int) []map[string]aggGroup {
	var r []map[string]aggGroup
	for s, set := range sub {
		m := map[string]aggGroup{}
		for g := 0; g < ngroups; g++ {
			if set>>g&1 == 0 {
				continue
			}
			var a aggGroup
			for i := 0; i < ngb; i++ {
				a.group = append(a.group, int64(g+i))
			}
			v := int64(1)
			for i := 0; i < s; i++ {
				v *= 7
			}
			for i := 0; i < nattr; i++ {
				a.attrs = append(a.attrs, v*int64(g+1)*int64(1-2*(i%2))+int64(i))
			}
			m[sprintf("k%02d", g)] = a
		}
		r = append(r, m)
	}
	return r
}

func c15Groups(x *engine.X) {
	par := pickTree(x, 1, 3)
	n := len(par) + 1
	ng := 2
	if x.Thorough() || n < 3 {
		ng = 3
	}
	sub := make([]int, n)
	for i := range sub {
		sub[i] = x.Choose(1<<ng, "groups of the server")
	}
	useToy(15)
	rot := 0
	if n > 1 {
		rot = x.Choose(2, "root")
	}
	proofs := x.Bool("proofs")
	nattr, ngb := 1, 1
	if ng == 2 {
		nattr, ngb = 2, 0
	}
	inCluster(x, n, func(c *cluster.Cluster) {
		c15Run(x, c, mkTree(c, par, rot), c15Data(sub, ng, nattr, ngb), false, proofs, true)
	})
	x.Obs("%v %v %d", par, sub, rot)
}

func c15Sizes(x *engine.X) {
	par := pickTree(x, 1, 4)
	n := len(par) + 1
	simple := x.Bool("plain vectors")
	rot := 0
	if n > 1 {
		rot = x.Choose(2, "root")
	}
	if suiteSmall(x); libunlynx.SuiTe == realSuite && n != 3 {
		return
	}
	verifreset.Set("VPARALLELIZE", 2)
	proofs := x.Bool("proofs")
	nattr := x.Int(1, 3, "attributes")
	var data []map[string]aggGroup
	if simple {
		empty := x.Choose(n+1, "server without data")
		data = c15Data(make([]int, n), 0, 0, 0)
		for s := range data {
			if s == empty {
				continue
			}
			var a []int64
			for i := 0; i < nattr; i++ {
				a = append(a, int64(10*(s+1)+i))
			}
			data[s][""] = aggGroup{attrs: a}
		}
	} else {
		ngroups := x.PickI("groups", 0, 1, 2, 3, 5, 12)
		ngb := x.Int(0, 2, "group values")
		pat := x.Choose(3, "distribution")
		sub := make([]int, n)
		for s := range sub {
			switch pat {
			case 0: // all servers hold all groups
				sub[s] = 1<<ngroups - 1
			case 1: // every group is held by one server
				for g := s; g < ngroups; g += n {
					sub[s] |= 1 << g
				}
			case 2: // overlapping
				for g := 0; g < ngroups; g++ {
					if g%(s+1) == 0 {
						sub[s] |= 1 << g
					}
				}
			}
		}
		data = c15Data(sub, ngroups, nattr, ngb)
		if pat == 0 && nattr == 2 && !proofs && x.Bool("different numbers of attributes") {
			for s := range data {
				for k, g := range data[s] {
					g.attrs = append([]int64{}, g.attrs[:1+s%2]...)
					data[s][k] = g
				}
			}
		}
	}
	inCluster(x, n, func(c *cluster.Cluster) {
		c15Run(x, c, mkTree(c, par, rot), data, simple, proofs, true)
	})
	x.Obs("%v %d %v %v", par, rot, simple, data)
}

// c15Related gives the servers ciphertexts that share their parts.
func c15Related(x *engine.X) {
	useToy(15)
	par := [][]int{{0}, {0, 0}, {0, 1}}[x.Choose(3, "tree")]
	n := len(par) + 1
	simple := x.Bool("plain vectors")
	vals := relVals(x, n, n)
	nattr := 1
	if x.Thorough() {
		nattr = x.Int(1, 2, "attributes")
	}
	key := "k"
	if simple {
		key = ""
	}
	var data []map[string]aggGroup
	for _, v := range vals {
		data = append(data, map[string]aggGroup{key: {attrs: []int64{v, v + 2}[:nattr]}})
	}
	inCluster(x, n, func(c *cluster.Cluster) {
		var all []int64
		for _, m := range data {
			all = append(all, m[key].attrs...)
		}
		cv := relCV(x, collective(c), all)
		c15RunEnc(x, c, mkTree(c, par, 0), data, simple, false, true, func(v []int64) libunlynx.CipherVector {
			r := copyCV(cv[:len(v)])
			cv = cv[len(v):]
			return r
		})
	})
	x.Obs("%v %v", par, vals)
}

func c15Orders(x *engine.X) {
	useToy(15)
	par := orderTrees(x, true)
	n := len(par) + 1
	data := x.Choose(3, "data")
	sub := make([]int, n)
	for s := range sub {
		switch data {
		case 0: // the number of groups grows with the server
			sub[s] = 1<<s - 1
		case 1: // every other server has nothing
			sub[s] = 3 * (s % 2)
		case 2:
			sub[s] = 1 << (s % 2)
		}
	}
	inCluster(x, n, func(c *cluster.Cluster) {
		c15Run(x, c, mkTree(c, par, 0), c15Data(sub, 3, 2, 1), false, false, false)
	})
	x.Obs("%v %v", par, sub)
}
