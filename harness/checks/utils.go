package checks

import (
	"fmt"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/toy"
	"unlynxverif/verifreset"
	"unlynxverif/vsched"
)

func init() {
	Props["C16"] = Info{Level: "model_checking", Rule: "every interleaving, at statement granularity of protocols/utils, of the Start, Dispatch and receiving threads of 2 (3 thorough) instances of the four local protocols, up to the delay bound (departures from a default order); each instance must return the result of its own input and all must terminate.",
		Assume: []string{"toy group", "instances are created through onet on one server; their Start and Dispatch methods run on controlled threads", "sequential consistency"}}
	Props["C17"] = Info{Level: "model_checking", Rule: "every ciphertext, key and direction of a small group, every vector length around the work-split size, every sequence up to the depth of additions and removals of two servers, through the real protocol instance; outputs are decrypted under the new collective secret.",
		Assume: []string{"small group Z_5 for the exhaustive part, Ed25519 on the same driver with seeded randomness"}}
	engine.Register(&engine.Scenario{Name: "c16-same", Prop: "C16", MaxDev: 2, MaxDevT: 3, Run: func(x *engine.X) { c16(x, 0) }})
	engine.Register(&engine.Scenario{Name: "c16-mixed", Prop: "C16", MaxDev: 1, MaxDevT: 2, Run: func(x *engine.X) { c16(x, 1) }})
	engine.Register(&engine.Scenario{Name: "c16-three", Prop: "C16", MaxDev: 1, MaxDevT: 2, Run: func(x *engine.X) { c16(x, 2) }})
	engine.Register(&engine.Scenario{Name: "c17-algebra", Prop: "C17", Run: c17Algebra})
	engine.Register(&engine.Scenario{Name: "c17-sequences", Prop: "C17", Run: c17Seq})
	engine.Register(&engine.Scenario{Name: "c17-related", Prop: "C17", Run: c17Related})
	for n, f := range map[string]func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error){
		"AddRm": protocolsunlynxutils.NewAddRmProtocol, "Local": protocolsunlynxutils.NewLocalAggregationProtocol,
		"Clear": protocolsunlynxutils.NewLocalClearAggregationProtocol, "Proofs": protocolsunlynxutils.NewProofsVerificationProtocol,
	} {
		f := f
		if _, err := onet.GlobalProtocolRegister("Verif"+n, func(t *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
			pi, err := f(t)
			if err != nil {
				return nil, err
			}
			return &manual{ProtocolInstance: pi, stop: make(chan struct{})}, nil
		}); err != nil {
			panic(err)
		}
	}
}

// manual is a protocol instance whose Dispatch is run by the harness.
type manual struct {
	onet.ProtocolInstance
	stop chan struct{}
}

func (m *manual) Dispatch() error { <-m.stop; return nil }

type instance struct {
	kind  string
	m     *manual
	recv  func() string // receives and describes the result
	want  string
	rerun func()
}

// mkInstance creates an instance with the given input number.
func mkInstance(x *engine.X, lt *onet.LocalTest, tree *onet.Tree, kind string, in int, proofs bool) *instance {
	pi, err := lt.CreateProtocol("Verif"+kind, tree)
	if err != nil {
		x.Failf("cannot create %s: %v", kind, err)
		panic(engine.Abort{})
	}
	m := pi.(*manual)
	i := &instance{kind: kind, m: m}
	k, pub := libunlynx.GenKey()
	switch kind {
	case "AddRm":
		p := m.ProtocolInstance.(*protocolsunlynxutils.AddRmServerProtocol)
		v := []int64{int64(in + 1), int64(10 * (in + 1)), 7}[:1+in%3]
		s, _ := libunlynx.GenKey()
		p.TargetOfTransformation = *libunlynx.EncryptIntVector(pub, v)
		p.KeyToRm, p.Add, p.Proofs = s, in%2 == 0, proofs
		nk := libunlynx.SuiTe.Scalar().Add(k, s)
		if !p.Add {
			nk = libunlynx.SuiTe.Scalar().Sub(k, s)
		}
		i.want = fmt.Sprint(v)
		i.recv = func() string { return fmt.Sprint(toySignedV(nk, <-p.FeedbackChannel)) }
	case "Local":
		p := m.ProtocolInstance.(*protocolsunlynxutils.LocalAggregationProtocol)
		p.Proofs = proofs || in == 1
		sum := int64(0)
		for j := 0; j <= in; j++ {
			v := int64(100*in + j + 1)
			sum += v
			p.TargetOfAggregation = append(p.TargetOfAggregation, libunlynx.FilteredResponseDet{DetTagGroupBy: "t", Fr: libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{int64(in)}), AggregatingAttributes: *libunlynx.EncryptIntVector(pub, []int64{v})}})
		}
		i.want = fmt.Sprintf("1 g[%d] a[%d]", in, sum)
		i.recv = func() string { r := <-p.FeedbackChannel; return fmt.Sprintf("%d %s", len(r), frString(k, r["t"])) }
	case "Clear":
		p := m.ProtocolInstance.(*protocolsunlynxutils.LocalClearAggregationProtocol)
		sum := int64(0)
		for j := 0; j <= in; j++ {
			v := int64(100*in + j + 1)
			sum += v
			p.TargetOfAggregation = append(p.TargetOfAggregation, libunlynx.DpClearResponse{GroupByClear: mapFrom("g", 0, []int64{int64(in)}), AggregatingAttributesClear: mapFrom("s", 0, []int64{v})})
		}
		i.want = fmt.Sprintf("1 map[g0:%d] map[s0:%d]", in, sum)
		i.recv = func() string {
			r := <-p.FeedbackChannel
			if len(r) == 0 {
				return "0"
			}
			return fmt.Sprintf("%d %v %v", len(r), r[0].GroupByClear, r[0].AggregatingAttributesClear)
		}
	case "Proofs":
		p := m.ProtocolInstance.(*protocolsunlynxutils.ProofsVerificationProtocol)
		want := []bool{true, true, true, true, true, true}
		set := []int{0b000000, 0b100101, 0b001010}[in%3]
		t := protocolsunlynxutils.ProofsToVerify{}
		for j, kd := range []string{"keyswitch", "tagcreation", "tagaddition", "aggregation", "", "aggregation"} {
			if kd == "" {
				continue
			}
			l := mkProofs(x, kd, 1, 0)
			if set>>j&1 == 1 {
				l.spoil(0)
				want[j] = false
			}
			switch j {
			case 0:
				t.KeySwitchingProofs = l.ks
			case 1:
				t.DetTagCreationProofs = l.cr
			case 2:
				t.DetTagAdditionProofs = l.ad
			case 3:
				t.AggregationProofs = l.aggr
			case 5:
				t.CollectiveAggregationProofs = l.aggr
			}
		}
		p.TargetOfVerification = t
		i.want = fmt.Sprint(want)
		i.recv = func() string { return fmt.Sprint(<-p.FeedbackChannel) }
	}
	return i
}

func c16(x *engine.X, mode int) {
	suite := useToy(16)
	verifreset.Set("VPARALLELIZE", 4)
	kinds := []string{"AddRm", "Local", "Clear", "Proofs"}
	var set []string
	var ins []int
	switch mode {
	case 2:
		k := kinds[x.Choose(4, "kind")]
		set, ins = []string{k, k, k}, []int{0, 1, 2}
	case 0:
		k := kinds[x.Choose(4, "kind")]
		set, ins = []string{k, k}, []int{0, 1}
	case 1:
		a := x.Int(0, 2, "first")
		b := x.Int(a+1, 3, "second")
		set, ins = []string{kinds[a], kinds[b]}, []int{0, 1}
	}
	proofs := (set[0] == "AddRm" || set[0] == "Local" || set[1] == "Local") && x.Bool("proofs")
	if proofs {
		defer watchProofs(x)()
	}
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, suite)
		defer c.Close()
		tree := c.Roster.GenerateBinaryTree()
		var ths []cluster.Thread
		var is []*instance
		for n, kind := range set {
			is = append(is, mkInstance(x, c.Local, tree, kind, ins[n], proofs))
		}
		for n, i := range is {
			n, i := n, i
			ths = append(ths,
				cluster.Thread{Name: fmt.Sprintf("start%d", n), Body: func() {
					if err := i.m.Start(); err != nil {
						x.Failf("%v: instance %d fails to start: %v", set, n, err)
					}
				}},
				cluster.Thread{Name: fmt.Sprintf("dispatch%d", n), Body: func() {
					if err := i.m.ProtocolInstance.Dispatch(); err != nil {
						x.Failf("%v: instance %d fails: %v", set, n, err)
					}
				}},
				cluster.Thread{Name: fmt.Sprintf("recv%d", n), Body: func() {
					if got := i.recv(); got != i.want {
						x.Failf("%v: instance %d returns %s, its own result is %s", set, n, got, i.want)
					}
				}})
		}
		if !cluster.DelayThreads(x, vsched.InPkg("protocols/utils"), time.Second, ths...) && !x.Failed() {
			x.Failf("instances of %v do not terminate", set)
		}
		for _, i := range is {
			close(i.m.stop)
		}
	})
	x.Obs("%v %v", set, proofs)
}

// addRm runs one instance of the protocol.
func addRm(x *engine.X, c *cluster.Cluster, cts []libunlynx.CipherText, key kyber.Scalar, add, proofs bool) []libunlynx.CipherText {
	tree := c.Roster.GenerateBinaryTree()
	pi, err := c.Local.CreateProtocol("VerifAddRm", tree)
	if err != nil {
		x.Failf("cannot create the protocol: %v", err)
		panic(engine.Abort{})
	}
	m := pi.(*manual)
	defer close(m.stop)
	p := m.ProtocolInstance.(*protocolsunlynxutils.AddRmServerProtocol)
	p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = cts, key, add, proofs
	errs := make(chan error, 2)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				errs <- fmt.Errorf("panic: %v", r)
			}
		}()
		if err := p.Start(); err != nil {
			errs <- err
		}
	}()
	go func() {
		if err := p.Dispatch(); err != nil {
			errs <- err
		}
	}()
	select {
	case r := <-p.FeedbackChannel:
		return r
	case err := <-errs:
		x.Failf("adding/removing a server over %d ciphertexts fails: %v", len(cts), err)
	case <-time.After(time.Hour):
		x.Failf("adding/removing a server over %d ciphertexts does not finish", len(cts))
	}
	panic(engine.Abort{})
}

func c17Algebra(x *engine.X) {
	q := uint64(5)
	if x.Thorough() {
		q = 7
	}
	s := toy.New(q)
	libunlynx.SuiTe = s
	key := int64(x.Choose(int(q), "collective secret"))
	srv := int64(x.Choose(int(q), "server secret"))
	add := x.Bool("add")
	proofs := x.Bool("proofs")
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, s)
		defer c.Close()
		var cts []libunlynx.CipherText
		var in []string
		for K := int64(0); K < int64(q); K++ {
			for C := int64(0); C < int64(q); C++ {
				cts = append(cts, libunlynx.CipherText{K: pt(K), C: pt(C)})
			}
		}
		if proofs {
			cts = cts[:int(q)+1]
		}
		for _, e := range cts {
			in = append(in, fmt.Sprint(plainPoint(sc(key), e)))
		}
		nk := sc(key + srv)
		if !add {
			nk = sc(key - srv)
		}
		out := addRm(x, c, cts, sc(srv), add, proofs)
		if len(out) != len(cts) {
			x.Failf("%d ciphertexts become %d", len(cts), len(out))
			return
		}
		for i, e := range out {
			if got := fmt.Sprint(plainPoint(nk, e)); got != in[i] {
				x.Failf("secret %d, server %d, add %v: ciphertext %d decrypts to %s instead of %s", key, srv, add, i, got, in[i])
			}
			if got := fmt.Sprint(plainPoint(sc(key), cts[i])); got != in[i] {
				x.Failf("the input ciphertext %d changed", i)
			}
		}
		back := addRm(x, c, out, sc(srv), !add, false)
		for i, e := range back {
			if got := fmt.Sprint(plainPoint(sc(key), e)); got != in[i] {
				x.Failf("secret %d, server %d, add %v and back: ciphertext %d decrypts to %s instead of %s", key, srv, add, i, got, in[i])
			}
		}
	})
	x.Obs("%d %d %v", key, srv, add)
}

// c17Related transforms ciphertexts that share their parts.
func c17Related(x *engine.X) {
	useToy(17)
	hi := 3
	if x.Thorough() {
		hi = 4
	}
	vals := relVals(x, 1, hi)
	verifreset.Set("VPARALLELIZE", 3)
	add := x.Bool("add")
	k, _ := libunlynx.GenKey()
	a, _ := libunlynx.GenKey()
	cv := relCV(x, k, vals)
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, toySuite)
		defer c.Close()
		cts := addRm(x, c, []libunlynx.CipherText(cv), a, add, false)
		nk := libunlynx.SuiTe.Scalar().Sub(k, a)
		if add {
			nk = libunlynx.SuiTe.Scalar().Add(k, a)
		}
		if len(cts) != len(vals) {
			x.Failf("%d ciphertexts become %d", len(vals), len(cts))
			return
		}
		for i := range cts {
			if !encodes(nk, cts[i], vals[i]) {
				x.Failf("adding %v, %v: number %d does not decrypt to its value under the new collective secret", add, vals, i)
				return
			}
		}
	})
	x.Obs("%v %v", add, vals)
}

func c17Seq(x *engine.X) {
	suiteChoice(x)
	chunk := x.PickI("chunk", 1, 2, 3)
	verifreset.Set("VPARALLELIZE", chunk)
	n := x.Int(0, 7, "ciphertexts")
	depth := 3
	if x.Thorough() {
		depth = 5
	}
	k, pub := libunlynx.GenKey()
	a, _ := libunlynx.GenKey()
	b, _ := libunlynx.GenKey()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = int64(5*i - 3)
	}
	proofs := x.Bool("proofs")
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, toySuite)
		defer c.Close()
		cts := []libunlynx.CipherText(*libunlynx.EncryptIntVector(pub, vals))
		var hist []string
		in := map[string]bool{}
		for d := 0; d < depth; d++ {
			op := x.Choose(3, "op")
			if op == 2 {
				break
			}
			nm, key := "a", a
			if op == 1 {
				nm, key = "b", b
			}
			add := !in[nm] // a server is removed when it is in
			in[nm] = add
			hist = append(hist, fmt.Sprintf("%v:%s", add, nm))
			if add {
				k = libunlynx.SuiTe.Scalar().Add(k, key)
			} else {
				k = libunlynx.SuiTe.Scalar().Sub(k, key)
			}
			cts = addRm(x, c, cts, key, add, proofs && n > 0)
			if len(cts) != n {
				x.Failf("after %v: %d ciphertexts instead of %d", hist, len(cts), n)
				return
			}
			for i := range cts {
				if !encodes(k, cts[i], vals[i]) {
					x.Failf("after %v of %d ciphertexts: number %d does not decrypt to %d under the new collective secret", hist, n, i, vals[i])
					return
				}
			}
		}
		x.Obs("%s", strings.Join(hist, " "))
	})
}
