package checks

import (
	"bytes"
	"fmt"
	"math"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Kinds of proofs, each driven through its public API. An instance is a list
// of n published proofs.

var proofKinds = []string{"aggregation", "keyswitch", "shuffle", "tagcreation", "tagaddition", "serveradd", "serverrm"}

type plist struct {
	kind  string
	aggr  libunlynxaggr.PublishedAggregationListProof
	ks    libunlynxkeyswitch.PublishedKSListProof
	shuf  libunlynxshuffle.PublishedShufflingListProof
	cr    libunlynxdetertag.PublishedDDTCreationListProof
	ad    libunlynxdetertag.PublishedDDTAdditionListProof
	ar    libunlynxaddrm.PublishedAddRmListProof
	seed  kyber.Point
	stErr string // published statement differs from the inputs
}

func (p *plist) len() int {
	switch p.kind {
	case "aggregation":
		return len(p.aggr.List)
	case "keyswitch":
		return len(p.ks.List)
	case "shuffle":
		return len(p.shuf.List)
	case "tagcreation":
		return len(p.cr.List)
	case "tagaddition":
		return len(p.ad.List)
	}
	return len(p.ar.List)
}

// one verifies element i alone.
func (p *plist) one(i int) bool {
	switch p.kind {
	case "aggregation":
		return libunlynxaggr.AggregationProofVerification(p.aggr.List[i])
	case "keyswitch":
		return libunlynxkeyswitch.KeySwitchProofVerification(p.ks.List[i])
	case "shuffle":
		return libunlynxshuffle.ShuffleProofVerification(p.shuf.List[i], p.seed)
	case "tagcreation":
		return libunlynxdetertag.DeterministicTagCrProofVerification(p.cr.List[i], p.cr.K, p.cr.SB)
	case "tagaddition":
		return libunlynxdetertag.DeterministicTagAdditionProofVerification(p.ad.List[i])
	}
	return libunlynxaddrm.AddRmProofVerification(p.ar.List[i], p.ar.Krm, p.ar.ToAdd)
}

// all verifies the list with a share.
func (p *plist) all(share float64) bool {
	switch p.kind {
	case "aggregation":
		return libunlynxaggr.AggregationListProofVerification(p.aggr, share)
	case "keyswitch":
		return libunlynxkeyswitch.KeySwitchListProofVerification(p.ks, share)
	case "shuffle":
		return libunlynxshuffle.ShuffleListProofVerification(p.shuf, p.seed, share)
	case "tagcreation":
		return libunlynxdetertag.DeterministicTagCrListProofVerification(p.cr, share)
	case "tagaddition":
		return libunlynxdetertag.DeterministicTagAdditionListProofVerification(p.ad, share)
	}
	return libunlynxaddrm.AddRmListProofVerification(p.ar, share)
}

func pt(v int64) kyber.Point {
	return libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(v), nil)
}
func sc(v int64) kyber.Scalar { return libunlynx.SuiTe.Scalar().SetInt64(v) }

// mkProofs makes n honest proofs of a kind. variant selects the shape of the
// inputs; variant 0 has no degenerate values.
func mkProofs(x *engine.X, kind string, n, variant int) *plist {
	s := libunlynx.SuiTe
	p := &plist{kind: kind}
	k := s.Scalar().Pick(s.RandomStream())
	K := s.Point().Mul(k, nil)
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = int64(3*i + 5)
		switch variant {
		case 1:
			vals[i] = 0
		case 2:
			vals[i] = int64(i%2) - 3
		}
	}
	enc := func(v int64) libunlynx.CipherText {
		if variant == 3 {
			return libunlynx.IntToCipherText(v) // no randomness at all
		}
		return *libunlynx.EncryptInt(K, v)
	}
	encV := func() libunlynx.CipherVector {
		cv := make(libunlynx.CipherVector, n)
		for i := range cv {
			cv[i] = enc(vals[i])
		}
		if variant == 2 && n > 1 { // repeated ciphertexts
			cv[n-1] = libunlynx.CipherText{K: cv[0].K.Clone(), C: cv[0].C.Clone()}
		}
		return cv
	}
	bad := func(f string, a ...interface{}) { p.stErr = fmt.Sprintf(f, a...) }
	switch kind {
	case "aggregation":
		data := make([]libunlynx.CipherVector, n)
		res := make([]libunlynx.CipherText, n)
		for i := range data {
			l := i%3 + 1
			if variant == 3 {
				l = i % 3 // also the empty sum
			}
			if variant == 2 && i == 0 {
				l = 205
			}
			for j := 0; j < l; j++ {
				data[i] = append(data[i], enc(vals[i]+int64(j)))
			}
			res[i] = libunlynx.CipherText{K: s.Point().Null(), C: s.Point().Null()}
			for _, c := range data[i] {
				res[i].K.Add(res[i].K, c.K)
				res[i].C.Add(res[i].C, c.C)
			}
		}
		p.aggr = libunlynxaggr.AggregationListProofCreation(data, res)
		if len(p.aggr.List) != n {
			bad("%d proofs for %d inputs", len(p.aggr.List), n)
			return p
		}
		for i := range data {
			if !sameCV(p.aggr.List[i].Data, data[i]) || !sameCT(p.aggr.List[i].AggregationResult, res[i]) {
				bad("proof %d of %d does not publish its own statement", i, n)
			}
		}
	case "keyswitch":
		q := s.Scalar().Pick(s.RandomStream())
		Q := s.Point().Mul(q, nil)
		cv := encV()
		rBs := make([]kyber.Point, n)
		for i := range rBs {
			rBs[i] = cv[i].K
		}
		out, ks2s, rn, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rBs, k)
		pl, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2s, rn, vis)
		if err != nil || len(pl.List) != n {
			bad("creation of %d proofs: %d, %v", n, len(pl.List), err)
			return p
		}
		p.ks = pl
		for i := range rBs {
			e := pl.List[i]
			if !e.K.Equal(K) || !e.Q.Equal(Q) || !e.RbNeg.Equal(s.Point().Neg(cv[i].K)) || !e.Ks2.Equal(out[i].C) || !e.ViB.Equal(out[i].K) {
				bad("proof %d of %d does not publish its own statement", i, n)
			}
		}
	case "shuffle":
		var in, out [][]libunlynx.CipherVector
		var gs, hs []kyber.Point
		var betas [][][]kyber.Scalar
		var pis [][]int
		for i := 0; i < n; i++ {
			rows, cols := 2+i%3, 1+(i+1)%3
			if variant == 2 {
				rows, cols = 2+i%2, 4
			}
			if variant == 1 && i == 0 {
				rows, cols = 5, 105
			}
			l := make([]libunlynx.CipherVector, rows)
			for r := range l {
				l[r] = make(libunlynx.CipherVector, cols)
				for c := range l[r] {
					l[r][c] = enc(int64(10*r + c + i))
					if variant == 1 {
						l[r][c] = enc(0)
					}
					if variant == 2 && c > 0 && c < 3 { // columns repeat
						l[r][c] = libunlynx.CipherText{K: l[r][0].K.Clone(), C: l[r][0].C.Clone()}
					}
				}
			}
			o, pi, beta := libunlynxshuffle.ShuffleSequence(l, s.Point().Base(), K, nil)
			in, out, gs, hs = append(in, l), append(out, o), append(gs, s.Point().Base()), append(hs, K)
			betas, pis = append(betas, beta), append(pis, pi)
		}
		pl, err := libunlynxshuffle.ShuffleListProofCreation(in, out, gs, hs, betas, pis)
		if err != nil || len(pl.List) != n {
			bad("creation of %d proofs: %d, %v", n, len(pl.List), err)
			return p
		}
		p.shuf = pl
		for i := range in {
			e := pl.List[i]
			if !sameCVs(e.OriginalList, in[i]) || !sameCVs(e.ShuffledList, out[i]) || !e.G.Equal(gs[i]) || !e.H.Equal(hs[i]) {
				bad("proof %d of %d does not publish its own statement", i, n)
			}
		}
	case "tagcreation":
		sec := s.Scalar().Pick(s.RandomStream())
		cv := encV()
		out := libunlynxdetertag.DeterministicTagSequence(cv, k, sec)
		pl, err := libunlynxdetertag.DeterministicTagCrListProofCreation(cv, out, K, k, sec)
		if err != nil || len(pl.List) != n {
			bad("creation of %d proofs: %d, %v", n, len(pl.List), err)
			return p
		}
		p.cr = pl
		if !pl.K.Equal(K) || !pl.SB.Equal(s.Point().Mul(sec, nil)) {
			bad("published keys are not those of the server")
		}
		for i := range cv {
			if !sameCT(pl.List[i].CTbef, cv[i]) || !sameCT(pl.List[i].CTaft, out[i]) {
				bad("proof %d of %d does not publish its own statement", i, n)
			}
		}
	case "tagaddition":
		cv := encV()
		c1, c2, r := make([]kyber.Point, n), make([]kyber.Point, n), make([]kyber.Point, n)
		secs := make([]kyber.Scalar, n)
		for i := range cv {
			secs[i] = s.Scalar().Pick(s.RandomStream())
			if variant == 2 {
				secs[i] = secs[0] // one server's secret for all
			}
			if variant == 1 {
				secs[i] = s.Scalar().Zero()
			}
			c1[i] = cv[i].C
			c2[i] = s.Point().Mul(secs[i], nil)
			r[i] = s.Point().Add(c1[i], c2[i])
		}
		pl, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(c1, secs, c2, r)
		if err != nil || len(pl.List) != n {
			bad("creation of %d proofs: %d, %v", n, len(pl.List), err)
			return p
		}
		p.ad = pl
		for i := range cv {
			e := pl.List[i]
			if !samePoints([]kyber.Point{e.C1, e.C2, e.R}, []kyber.Point{c1[i], c2[i], r[i]}) {
				bad("proof %d of %d does not publish its own statement", i, n)
			}
		}
	default:
		add := kind == "serveradd"
		p.kind = kind
		cv := encV()
		out := make(libunlynx.CipherVector, n)
		nk := s.Scalar().Pick(s.RandomStream())
		NK := s.Point().Mul(nk, nil)
		for i := range cv {
			d := s.Point().Mul(nk, cv[i].K)
			out[i].K = cv[i].K
			if add {
				out[i].C = s.Point().Add(cv[i].C, d)
			} else {
				out[i].C = s.Point().Sub(cv[i].C, d)
			}
		}
		pl, err := libunlynxaddrm.AddRmListProofCreation(cv, out, NK, nk, add)
		if err != nil || len(pl.List) != n {
			bad("creation of %d proofs: %d, %v", n, len(pl.List), err)
			return p
		}
		p.ar = pl
		if !pl.Krm.Equal(NK) || pl.ToAdd != add {
			bad("published key or direction are not those of the server")
		}
		for i := range cv {
			if !sameCT(pl.List[i].CtBef, cv[i]) || !sameCT(pl.List[i].CtAft, out[i]) || !pl.List[i].RB.Equal(cv[i].K) {
				bad("proof %d of %d does not publish its own statement", i, n)
			}
		}
	}
	if kind == "shuffle" {
		p.seed = K
	}
	return p
}

// rept re-creates a point from its encoding, as a receiver gets it.
func rept(p kyber.Point) kyber.Point {
	b, err := libunlynx.AbstractPointsToBytes([]kyber.Point{p})
	if err != nil {
		return nil
	}
	q, err := libunlynx.FromBytesToAbstractPoints(b)
	if err != nil || len(q) != 1 {
		return nil
	}
	return q[0]
}
func rect(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: rept(c.K), C: rept(c.C)}
}

// transmit returns the list as a receiver decodes it.
func (p *plist) transmit() (*plist, error) {
	r := &plist{kind: p.kind}
	if p.seed != nil {
		r.seed = rept(p.seed)
	}
	switch p.kind {
	case "aggregation":
		b, err := p.aggr.ToBytes()
		if err != nil {
			return nil, err
		}
		return r, r.aggr.FromBytes(b)
	case "keyswitch":
		b, err := p.ks.ToBytes()
		if err != nil {
			return nil, err
		}
		return r, r.ks.FromBytes(b)
	case "shuffle":
		for i := range p.shuf.List {
			b, err := p.shuf.List[i].ToBytes()
			if err != nil {
				return nil, err
			}
			var e libunlynxshuffle.PublishedShufflingProof
			if err := e.FromBytes(b); err != nil {
				return nil, err
			}
			r.shuf.List = append(r.shuf.List, e)
		}
	case "tagcreation":
		r.cr.K, r.cr.SB = rept(p.cr.K), rept(p.cr.SB)
		for _, e := range p.cr.List {
			r.cr.List = append(r.cr.List, libunlynxdetertag.PublishedDDTCreationProof{Proof: e.Proof, Ciminus11Si: rept(e.Ciminus11Si), CTbef: rect(e.CTbef), CTaft: rect(e.CTaft)})
		}
	case "tagaddition":
		for _, e := range p.ad.List {
			r.ad.List = append(r.ad.List, libunlynxdetertag.PublishedDDTAdditionProof{Proof: e.Proof, C1: rept(e.C1), C2: rept(e.C2), R: rept(e.R)})
		}
	default:
		r.ar.Krm, r.ar.ToAdd = rept(p.ar.Krm), p.ar.ToAdd
		for _, e := range p.ar.List {
			r.ar.List = append(r.ar.List, libunlynxaddrm.PublishedAddRmProof{Proof: e.Proof, CtBef: rect(e.CtBef), CtAft: rect(e.CtAft), RB: rept(e.RB)})
		}
	}
	return r, nil
}

func init() {
	Props["C12"] = Info{Level: "model_checking", Rule: "every kind of proof x list length 0..7 around the work-split size (and around 100 with the production size) x shape of the inputs (distinct, zero, repeated, unrandomised, long), verified alone, in the list with several shares, before and after serialisation; the published statement is compared with the inputs. The protocols of C07, C08, C09, C15 and C17 are also run with proofs, which are verified.",
		Assume: []string{"toy group of order near 2^61 for the long lists, Ed25519 for the short ones"}}
	engine.Register(&engine.Scenario{Name: "c12-honest", Prop: "C12", Run: func(x *engine.X) {
		real := x.Bool("real")
		max := 7
		if real {
			useReal(5)
			max = 3
		} else {
			useToy(5)
		}
		verifreset.Set("VPARALLELIZE", x.PickI("chunk", 3, 1))
		c12(x, proofKinds[x.Choose(len(proofKinds), "kind")], x.Int(0, max, "n"), x.Choose(4, "variant"))
	}})
	engine.Register(&engine.Scenario{Name: "c12-long", Prop: "C12", Run: func(x *engine.X) {
		useToy(5)
		k := proofKinds[x.Choose(len(proofKinds), "kind")]
		n := x.PickI("n", 99, 100, 101, 200, 203, 257)
		c12(x, k, n, 0)
	}})

	Props["C13"] = Info{Level: "model_checking", Rule: "every component of the statement of every kind of proof x every replacement (plus base, neutral element, double, same component of another element), every set of components exchanged between two elements, every row/column/list change of shuffles, forged intermediate points; checked alone and at every position of a fully verified list, on Ed25519 and the toy group, before and after serialisation.",
		Assume: []string{"the prover does not choose the statement after the challenge (kyber's HashProve does not hash the statement) and does not choose the first row of a shuffle adaptively: such forgeries need a change of the proof system"}}
	engine.Register(&engine.Scenario{Name: "c13-replace", Prop: "C13", Run: func(x *engine.X) { suiteChoice(x); c13Replace(x) }})
	engine.Register(&engine.Scenario{Name: "c13-sums", Prop: "C13", Run: func(x *engine.X) { suiteChoice(x); c13Sums(x) }})
	engine.Register(&engine.Scenario{Name: "c13-exchange", Prop: "C13", Run: func(x *engine.X) { suiteChoice(x); c13Exchange(x) }})
	engine.Register(&engine.Scenario{Name: "c13-shuffle", Prop: "C13", Run: func(x *engine.X) { suiteChoice(x); c13Shuffle(x) }})
	engine.Register(&engine.Scenario{Name: "c13-forged", Prop: "C13", Run: func(x *engine.X) { suiteChoice(x); c13Forged(x) }})

	Props["C14"] = Info{Level: "model_checking", Rule: "every kind of proof list x length around the work-split sizes x share (including 0, values with rounding, 1, beyond 1, negative, infinite, NaN) x position of one invalid proof (all positions), and every subset of invalid proofs for short lists.",
		Assume: []string{"the checked part does not depend on which proofs are invalid"}}
	engine.Register(&engine.Scenario{Name: "c14-share", Prop: "C14", Run: func(x *engine.X) { c14(x, false) }})
	engine.Register(&engine.Scenario{Name: "c14-long", Prop: "C14", Run: func(x *engine.X) { c14(x, true) }})
	engine.Register(&engine.Scenario{Name: "c14-subsets", Prop: "C14", Run: c14Subsets})
}

func c12(x *engine.X, kind string, n, variant int) {
	p := mkProofs(x, kind, n, variant)
	if p.stErr != "" {
		x.Failf("%s (variant %d): %s", kind, variant, p.stErr)
		return
	}
	t, err := p.transmit()
	if err != nil {
		x.Failf("%s: %d proofs cannot be serialised: %v", kind, n, err)
		return
	}
	for w, q := range []*plist{p, t} {
		if q.len() != n {
			x.Failf("%s: %d of %d proofs left", kind, q.len(), n)
			return
		}
		for i := 0; i < n; i++ {
			if n > 20 && i > 3 && i < n-3 && i%100 > 2 && i%100 < 98 {
				continue
			}
			if !q.one(i) {
				x.Failf("%s (variant %d): honest proof %d of %d does not verify (serialised: %v)", kind, variant, i, n, w == 1)
			}
		}
		for _, sh := range []float64{1, 0.5, 0} {
			if !q.all(sh) {
				x.Failf("%s (variant %d): honest list of %d does not verify with share %v (serialised: %v)", kind, variant, n, sh, w == 1)
			}
		}
	}
	x.Obs("%s %d %d", kind, n, variant)
}

// fields returns the point components of element i as settable references.
func (p *plist) fields(i int) (names []string, refs []*kyber.Point) {
	add := func(n string, r *kyber.Point) { names = append(names, n); refs = append(refs, r) }
	ct := func(n string, c *libunlynx.CipherText) { add(n+".K", &c.K); add(n+".C", &c.C) }
	switch p.kind {
	case "aggregation":
		e := &p.aggr.List[i]
		for j := range e.Data {
			ct(fmt.Sprintf("Data%d", j), &e.Data[j])
		}
		ct("AggregationResult", &e.AggregationResult)
	case "keyswitch":
		e := &p.ks.List[i]
		add("K", &e.K)
		add("ViB", &e.ViB)
		add("Ks2", &e.Ks2)
		add("RbNeg", &e.RbNeg)
		add("Q", &e.Q)
	case "shuffle":
		e := &p.shuf.List[i]
		for w, l := range [][]libunlynx.CipherVector{e.OriginalList, e.ShuffledList} {
			for r := range l {
				for c := range l[r] {
					ct(fmt.Sprintf("%s[%d][%d]", []string{"Original", "Shuffled"}[w], r, c), &l[r][c])
				}
			}
		}
		add("G", &e.G)
		add("H", &e.H)
	case "tagcreation":
		e := &p.cr.List[i]
		add("Ciminus11Si", &e.Ciminus11Si)
		ct("CTbef", &e.CTbef)
		ct("CTaft", &e.CTaft)
		add("K", &p.cr.K)
		add("SB", &p.cr.SB)
	case "tagaddition":
		e := &p.ad.List[i]
		add("C1", &e.C1)
		add("C2", &e.C2)
		add("R", &e.R)
	default:
		e := &p.ar.List[i]
		ct("CtBef", &e.CtBef)
		ct("CtAft", &e.CtAft)
		add("RB", &e.RB)
		add("Krm", &p.ar.Krm)
	}
	return
}

func (p *plist) proofBytes(i int) *[]byte {
	switch p.kind {
	case "keyswitch":
		return &p.ks.List[i].Proof
	case "shuffle":
		return &p.shuf.List[i].HashProof
	case "tagcreation":
		return &p.cr.List[i].Proof
	case "tagaddition":
		return &p.ad.List[i].Proof
	case "serveradd", "serverrm":
		return &p.ar.List[i].Proof
	}
	return nil
}

// deep is a copy through encodings, so that no component is shared.
func (p *plist) deep(x *engine.X) *plist {
	t, err := p.transmit()
	if err != nil {
		x.Failf("%s: proofs cannot be serialised: %v", p.kind, err)
		return nil
	}
	return t
}

func (p *plist) rejected(x *engine.X, i int, what string) {
	if p.one(i) {
		x.FailKey(p.kind+"-one", "%s: a proof verifies although %s", p.kind, what)
	}
	if p.all(1) {
		x.FailKey(p.kind+"-list", "%s: a fully verified list verifies although in element %d of %d %s", p.kind, i, p.len(), what)
	}
}

func c13Replace(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 2)
	kind := proofKinds[x.Choose(len(proofKinds), "kind")]
	n := 3
	if kind == "shuffle" {
		n = 2
	}
	pos := x.Choose(n, "position")
	variant := x.Choose(4, "variant")
	if kind == "aggregation" && variant == 2 || kind == "shuffle" && (variant == 1 || variant == 2) && !x.Thorough() || variant > 0 && !x.Thorough() && libunlynx.SuiTe == realSuite {
		return
	}
	p := mkProofs(x, kind, n, variant)
	if p.stErr != "" {
		return // C12's matter
	}
	d := p.deep(x)
	if d == nil {
		return
	}
	if x.Bool("verified before") {
		if kind == "shuffle" && variant > 0 && !x.Thorough() {
			return
		}
		// what is remembered of valid proofs must not help altered ones
		d.all(1)
		d.one(pos)
	}
	names, refs := d.fields(pos)
	f := x.Choose(len(refs)+2, "field")
	if f >= len(refs) {
		// not a point: direction of the server change, list order
		switch {
		case f == len(refs) && (kind == "serveradd" || kind == "serverrm"):
			if d.ar.List[pos].CtBef.K.Equal(pt(0)) {
				return // without randomness both directions are the same
			}
			d.ar.ToAdd = !d.ar.ToAdd
			d.rejected(x, pos, "the direction was flipped")
		case f == len(refs) && kind == "shuffle":
			e := &d.shuf.List[pos]
			e.OriginalList, e.ShuffledList = e.ShuffledList, e.OriginalList
			d.rejected(x, pos, "input and output were exchanged")
		case f == len(refs)+1 && kind == "aggregation":
			e := &d.aggr.List[pos]
			if x.Bool("drop") && len(e.Data) > 1 {
				if e.Data[0].K.Equal(pt(0)) && e.Data[0].C.Equal(pt(0)) {
					return
				}
				e.Data = e.Data[1:]
				d.rejected(x, pos, "a ciphertext was dropped")
			} else {
				e.Data = append(e.Data, libunlynx.CipherText{K: pt(3), C: pt(4)})
				d.rejected(x, pos, "a ciphertext was added")
			}
		}
		x.Obs("%s other", kind)
		return
	}
	s := libunlynx.SuiTe
	old := (*refs[f]).Clone()
	var nw kyber.Point
	by := x.Choose(5, "by")
	if (by == 2 || by == 3) && !x.Thorough() && s == realSuite {
		return
	}
	switch by {
	case 0:
		nw = s.Point().Add(old, s.Point().Base())
	case 1:
		nw = s.Point().Null()
	case 2:
		nw = s.Point().Add(old, old)
	case 3:
		nw = s.Point().Neg(old)
	case 4: // another component
		nw = (*refs[(f+1)%len(refs)]).Clone()
	}
	if nw.Equal(old) {
		return
	}
	*refs[f] = nw
	d.rejected(x, pos, names[f]+" was replaced")
	x.Obs("%s %s", kind, names[f])
}

func c13Exchange(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 2)
	kind := proofKinds[x.Choose(len(proofKinds), "kind")]
	n := 3
	p := mkProofs(x, kind, n, 0)
	if p.stErr != "" {
		return
	}
	d := p.deep(x)
	if d == nil {
		return
	}
	i := x.Choose(n, "i")
	j := (i + 1 + x.Choose(n-1, "j")) % n
	if x.Bool("copy") {
		c13Copy(x, d, i, j)
		return
	}
	if kind == "shuffle" || kind == "aggregation" {
		what := ""
		if kind == "shuffle" {
			a, b := &d.shuf.List[i], &d.shuf.List[j]
			switch x.Choose(4, "what") {
			case 0:
				a.OriginalList, b.OriginalList, what = b.OriginalList, a.OriginalList, "inputs"
			case 1:
				a.ShuffledList, b.ShuffledList, what = b.ShuffledList, a.ShuffledList, "outputs"
			case 2:
				a.HashProof, b.HashProof, what = b.HashProof, a.HashProof, "proofs"
			case 3:
				a.OriginalList, b.OriginalList = b.OriginalList, a.OriginalList
				a.ShuffledList, b.ShuffledList, what = b.ShuffledList, a.ShuffledList, "statements"
			}
		} else {
			a, b := &d.aggr.List[i], &d.aggr.List[j]
			if x.Bool("data") {
				a.Data, b.Data, what = b.Data, a.Data, "data"
			} else {
				a.AggregationResult, b.AggregationResult, what = b.AggregationResult, a.AggregationResult, "results"
			}
		}
		d.rejected(x, i, what+" of two elements were exchanged")
		x.Obs("%s %s", kind, what)
		return
	}
	_, ri := d.fields(i)
	names, rj := d.fields(j)
	// the components that differ between the elements, and the proof itself
	var diff []int
	for f := range ri {
		if ri[f] != rj[f] && !(*ri[f]).Equal(*rj[f]) {
			diff = append(diff, f)
		}
	}
	set := 1 + x.Choose((2<<len(diff))-2, "set") // neither nothing nor everything
	desc := ""
	for b, f := range diff {
		if set>>b&1 == 1 {
			*ri[f], *rj[f] = *rj[f], *ri[f]
			desc += names[f] + " "
		}
	}
	if set>>len(diff)&1 == 1 {
		a, b := d.proofBytes(i), d.proofBytes(j)
		*a, *b = *b, *a
		desc += "proof "
	}
	d.rejected(x, i, desc+"of two elements were exchanged")
	x.Obs("%s %s", kind, desc)
}

// c13Copy: element i takes over a part of element j (its proof, components of
// its statement), or everything but one component.
func c13Copy(x *engine.X, d *plist, i, j int) {
	type part struct {
		name string
		set  func()
	}
	var parts []part
	switch d.kind {
	case "shuffle":
		a, b := &d.shuf.List[i], &d.shuf.List[j]
		parts = []part{{"input", func() { a.OriginalList = b.OriginalList }}, {"output", func() { a.ShuffledList = b.ShuffledList }}, {"proof", func() { a.HashProof = b.HashProof }}}
	case "aggregation":
		a, b := &d.aggr.List[i], &d.aggr.List[j]
		parts = []part{{"data", func() { a.Data = b.Data }}, {"result", func() { a.AggregationResult = b.AggregationResult }}}
	default:
		_, ri := d.fields(i)
		names, rj := d.fields(j)
		for f := range ri {
			if ri[f] != rj[f] && !(*ri[f]).Equal(*rj[f]) {
				f := f
				parts = append(parts, part{names[f], func() { *ri[f] = (*rj[f]).Clone() }})
			}
		}
		parts = append(parts, part{"proof", func() { *d.proofBytes(i) = append([]byte{}, *d.proofBytes(j)...) }})
	}
	set := 1 + x.Choose((1<<len(parts))-2, "set") // neither nothing nor everything
	desc := ""
	for b, p := range parts {
		if set>>b&1 == 1 {
			p.set()
			desc += p.name + " "
		}
	}
	d.rejected(x, i, sprintf("%sof element %d were copied there", desc, j))
	x.Obs("%s copy %s", d.kind, desc)
}

// c13Shuffle: structural changes of a shuffle.
func c13Shuffle(x *engine.X) {
	p := mkProofs(x, "shuffle", 1, x.PickI("variant", 2, 0))
	if p.stErr != "" {
		return
	}
	// element 0 of variant 0 has 2 rows and 2 columns, of variant 2 2 rows and 4 columns
	d := p.deep(x)
	if d == nil {
		return
	}
	e := &d.shuf.List[0]
	rows, cols := len(e.ShuffledList), len(e.ShuffledList[0])
	lists := []*[]libunlynx.CipherVector{&e.OriginalList, &e.ShuffledList}
	w := x.Choose(2, "list")
	l := *lists[w]
	what := ""
	switch x.Choose(9, "change") {
	case 0: // exchange two columns in one row
		r := x.Choose(rows, "row")
		a := x.Choose(cols-1, "a")
		b := a + 1 + x.Choose(cols-1-a, "b")
		if sameCT(l[r][a], l[r][b]) {
			return
		}
		l[r][a], l[r][b] = l[r][b], l[r][a]
		what = "two columns of a row were exchanged"
	case 1: // exchange two columns in all rows
		a := x.Choose(cols-1, "a")
		b := a + 1 + x.Choose(cols-1-a, "b")
		same := true
		for r := range l {
			same = same && sameCT(l[r][a], l[r][b])
			l[r][a], l[r][b] = l[r][b], l[r][a]
		}
		if same {
			return
		}
		if w == 1 && x.Bool("different values only") {
			// columns that hold the same plaintexts in all rows may be exchanged
			return
		}
		if columnsEqual(e.OriginalList, a, b) && w == 1 {
			return // the result is still a correct shuffle of equal columns
		}
		what = "two columns were exchanged"
	case 2:
		l[0] = copyCV(l[1])
		what = "a row was replaced by a copy of another"
	case 3:
		*lists[w] = l[:rows-1]
		what = "a row was dropped"
	case 4:
		*lists[w] = append(l, copyCV(l[0]))
		what = "a row was added"
	case 5:
		for r := range l {
			l[r] = l[r][:cols-1]
		}
		what = "a column was dropped"
	case 6:
		l[x.Choose(rows, "row")] = nil
		what = "a row was emptied"
	case 7:
		*lists[w] = nil
		what = "a list was emptied"
	case 8: // mix parts of two rows
		c := x.Choose(cols, "col")
		if sameCT(l[0][c], l[1][c]) {
			return
		}
		l[0][c], l[1][c] = l[1][c], l[0][c]
		what = "the cells of two rows were exchanged"
	}
	d.rejected(x, 0, what)
	x.Obs("%s", what)
}

func columnsEqual(l []libunlynx.CipherVector, a, b int) bool {
	for r := range l {
		if !sameCT(l[r][a], l[r][b]) {
			return false
		}
	}
	return true
}

// c13Forged: a tag creation proof for an arbitrary result, with the free
// intermediate point chosen to satisfy the equation.
func c13Forged(x *engine.X) {
	s := libunlynx.SuiTe
	k, sec := sc(1234), sc(77)
	K := s.Point().Mul(k, nil)
	ct := *libunlynx.EncryptInt(K, 5)
	aft := libunlynx.CipherText{K: s.Point().Mul(sec, ct.K), C: pt(x.Pick64("result", 1, 999, -4))}
	// aft.C = sec*ct.C + k*X
	X := s.Point().Mul(s.Scalar().Inv(k), s.Point().Sub(aft.C, s.Point().Mul(sec, ct.C)))
	pred := proof.And(proof.And(proof.And(proof.And(proof.Rep("ci1", "s", "ciminus11"), proof.Rep("K", "k", "B")), proof.Rep("ci2", "s", "ciminus12", "k", "ciminus11Si")), proof.Rep("SB", "s", "B")))
	SB := s.Point().Mul(sec, nil)
	pv := pred.Prover(s, map[string]kyber.Scalar{"k": k, "s": sec}, map[string]kyber.Point{"B": s.Point().Base(), "K": K, "SB": SB, "ciminus11Si": X, "ciminus12": ct.C, "ciminus11": ct.K, "ci2": aft.C, "ci1": aft.K}, nil)
	prf, err := proof.HashProve(s, "proofTest", pv)
	if err != nil {
		panic(err)
	}
	p := &plist{kind: "tagcreation"}
	p.cr = libunlynxdetertag.PublishedDDTCreationListProof{List: []libunlynxdetertag.PublishedDDTCreationProof{{Proof: prf, Ciminus11Si: X, CTbef: ct, CTaft: aft}}, K: K, SB: SB}
	p.rejected(x, 0, "the result is not the tag of the input (forged intermediate point)")
	// server change that replaces the first part
	add := x.Bool("add")
	nk := sc(4321)
	NK := s.Point().Mul(nk, nil)
	out := libunlynx.CipherText{K: s.Point().Add(ct.K, s.Point().Base()), C: s.Point().Add(ct.C, s.Point().Mul(nk, ct.K))}
	if !add {
		out.C = s.Point().Sub(ct.C, s.Point().Mul(nk, ct.K))
	}
	pl, err := libunlynxaddrm.AddRmListProofCreation(libunlynx.CipherVector{ct}, libunlynx.CipherVector{out}, NK, nk, add)
	if err == nil {
		q := &plist{kind: "serveradd", ar: pl}
		q.rejected(x, 0, "the first part of the ciphertext was changed")
	}
	x.Obs("forged")
}

var shares = []float64{1, 0, 0.01, 0.1, 0.29, 1.0 / 3, 0.5, 0.57, 2.0 / 3, 0.7, 0.9, 0.99, 0.999999, 1.5, -0.5, 2, math.Inf(1), math.Inf(-1), math.NaN(), 1e300}

// spoil makes element i of the list invalid.
func (p *plist) spoil(i int) {
	switch p.kind {
	case "aggregation":
		r := &p.aggr.List[i].AggregationResult
		r.C = libunlynx.SuiTe.Point().Add(r.C, libunlynx.SuiTe.Point().Base())
	case "keyswitch":
		p.ks.List[i].Ks2 = libunlynx.SuiTe.Point().Add(p.ks.List[i].Ks2, libunlynx.SuiTe.Point().Base())
	case "shuffle":
		l := append([]libunlynx.CipherVector{}, p.shuf.List[i].ShuffledList...)
		l[0] = copyCV(l[0])
		l[0][0].C.Add(l[0][0].C, libunlynx.SuiTe.Point().Base())
		p.shuf.List[i].ShuffledList = l
	case "tagcreation":
		e := &p.cr.List[i].CTaft
		e.C = libunlynx.SuiTe.Point().Add(e.C, libunlynx.SuiTe.Point().Base())
	case "tagaddition":
		p.ad.List[i].R = libunlynx.SuiTe.Point().Add(p.ad.List[i].R, libunlynx.SuiTe.Point().Base())
	default:
		e := &p.ar.List[i].CtAft
		e.C = libunlynx.SuiTe.Point().Add(e.C, libunlynx.SuiTe.Point().Base())
	}
}

func (p *plist) shallow() *plist {
	q := *p
	q.aggr.List = append([]libunlynxaggr.PublishedAggregationProof{}, p.aggr.List...)
	q.ks.List = append([]libunlynxkeyswitch.PublishedKSProof{}, p.ks.List...)
	q.shuf.List = append([]libunlynxshuffle.PublishedShufflingProof{}, p.shuf.List...)
	q.cr.List = append([]libunlynxdetertag.PublishedDDTCreationProof{}, p.cr.List...)
	q.ad.List = append([]libunlynxdetertag.PublishedDDTAdditionProof{}, p.ad.List...)
	q.ar.List = append([]libunlynxaddrm.PublishedAddRmProof{}, p.ar.List...)
	return &q
}

// wanted is the least number of elements a share asks for.
func wanted(share float64, n int) int {
	if !(share > 0) {
		return 0
	}
	if share >= 1 {
		return n
	}
	// at least share*n, allowing for the rounding of the product itself
	w := int(math.Ceil(share*float64(n) - 1e-9))
	return w
}

func c14(x *engine.X, long bool) {
	useToy(9)
	kind := proofKinds[x.Choose(len(proofKinds), "kind")]
	var n int
	if long {
		n = x.PickI("n", 99, 100, 101, 201, 257)
		if kind == "shuffle" {
			n = 101
		}
	} else {
		verifreset.Set("VPARALLELIZE", 3)
		n = x.Int(0, 7, "n")
	}
	p := mkProofs(x, kind, n, 0)
	if p.stErr != "" {
		return
	}
	var shs []float64
	if long {
		shs = []float64{1, 0.5, 0.995, 0.01}
	} else {
		shs = shares
	}
	share := shs[x.Choose(len(shs), "share")]
	if !p.all(share) {
		x.Failf("%s: a list of %d valid proofs is rejected with share %v", kind, n, share)
	}
	rej := 0
	for i := 0; i < n; i++ {
		q := p.shallow()
		q.spoil(i)
		if q.one(i) {
			return // C13's matter
		}
		if !q.all(share) {
			rej++
		}
	}
	if w := wanted(share, n); rej < w {
		x.Failf("%s: share %v of a list of %d proofs: only %d positions are checked, %d asked for", kind, share, n, rej, w)
	}
	if share == 0 && rej > 0 {
		x.Count("share0", rej)
	}
	x.Count("positions", n)
	x.Obs("%s %d %v %d", kind, n, share, rej)
}

func c14Subsets(x *engine.X) {
	useToy(9)
	verifreset.Set("VPARALLELIZE", x.PickI("chunk", 2, 100))
	kind := proofKinds[x.Choose(len(proofKinds), "kind")]
	n := x.Int(1, 5, "n")
	set := x.Choose(1<<n, "invalid")
	share := []float64{1, 0.5, 0.25, 0.8}[x.Choose(4, "share")]
	p := mkProofs(x, kind, n, 0)
	if p.stErr != "" {
		return
	}
	// which positions are checked
	want := true
	for i := 0; i < n; i++ {
		if set>>i&1 == 1 {
			q := p.shallow()
			q.spoil(i)
			want = want && q.all(share)
		}
	}
	q := p.shallow()
	for i := 0; i < n; i++ {
		if set>>i&1 == 1 {
			q.spoil(i)
		}
	}
	if got := q.all(share); got != want {
		x.Failf("%s: list of %d with invalid set %b and share %v: verified %v, but one invalid proof of the set alone in its place gives %v", kind, n, set, share, got, want)
	}
	x.Obs("%s %d %b %v", kind, n, set, share)
}

var _ = bytes.Equal

// c13Sums: results next to data that has all kinds of relations.
func c13Sums(x *engine.X) {
	e := []int64{0, 1, -1, 5}
	pair := func(name string) (libunlynx.CipherText, [2]int64) {
		v := [2]int64{e[x.Choose(len(e), name+" K")], e[x.Choose(len(e), name+" C")]}
		return libunlynx.CipherText{K: pt(v[0]), C: pt(v[1])}, v
	}
	n := x.Int(0, 2, "data")
	if x.Thorough() {
		n = x.Int(0, 3, "data")
	}
	var data libunlynx.CipherVector
	var sum [2]int64
	for i := 0; i < n; i++ {
		c, v := pair("data")
		data = append(data, c)
		sum[0], sum[1] = sum[0]+v[0], sum[1]+v[1]
	}
	res, v := pair("result")
	p := &plist{kind: "aggregation"}
	p.aggr.List = []libunlynxaggr.PublishedAggregationProof{{Data: data, AggregationResult: res}}
	if v == sum {
		x.Obs("right %d", n)
		return
	}
	p.rejected(x, 0, sprintf("the data has the sum %v and the result is %v", sum, v))
	x.Obs("wrong %d", n)
}
