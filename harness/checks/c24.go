package checks

import (
	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/engine"
	"unlynxverif/toy"
)

func init() {
	Props["C24"] = Info{Level: "model_checking", Rule: "every number of keys/shares up to the bound, every secret and every value of the share randomness in a small group; each execution checks sums and key pairs of the real helpers.",
		Assume: []string{"toy group for the exhaustive part, Ed25519 on the same driver with seeded randomness"}}
	engine.Register(&engine.Scenario{Name: "c24-split", Prop: "C24", Run: func(x *engine.X) { c24Split(x, false) }})
	engine.Register(&engine.Scenario{Name: "c24-split-real", Prop: "C24", Run: func(x *engine.X) { c24Split(x, true) }})
	engine.Register(&engine.Scenario{Name: "c24-genkeys", Prop: "C24", Run: c24Gen})
}

func c24Split(x *engine.X, real bool) {
	q := uint64(7)
	max := 3
	if x.Thorough() {
		q, max = 11, 4
	}
	if real {
		useReal(9)
		max = 40
		if x.Thorough() {
			max = 300
		}
	} else {
		libunlynx.SuiTe = toy.New(q)
		toy.Draw = func(kind string) uint64 { return uint64(x.Choose(int(q), kind)) }
		defer toy.ResetDraw(1)
	}
	s := libunlynx.SuiTe
	n := x.Int(0, max, "splits")
	sec := s.Scalar().SetInt64(int64(x.Choose(int(q), "secret")))
	orig := sec.Clone()
	sh := libunlynx.SplitScalar(sec, n)
	if len(sh) != n+1 {
		x.Failf("%d splits give %d shares", n, len(sh))
		return
	}
	sum := s.Scalar().Zero()
	for _, e := range sh {
		sum.Add(sum, e)
	}
	if !sum.Equal(orig) {
		x.Failf("shares sum to %v, secret is %v (n=%d)", sum, orig, n)
	}
	if !sec.Equal(orig) {
		x.Failf("splitting changed the secret from %v to %v (n=%d)", orig, sec, n)
	}
	// using the shares must not touch the secret either
	for _, e := range sh {
		e.Add(e, s.Scalar().One())
	}
	if !sec.Equal(orig) {
		x.Failf("modifying a share changed the secret (n=%d)", n)
	}
	x.Obs("n%d", n)
}

func c24Gen(x *engine.X) {
	max := 300
	if x.Bool("real") {
		useReal(11)
		if !x.Thorough() {
			max = 40
		}
	} else {
		useToy(11)
	}
	s := libunlynx.SuiTe
	n := x.Int(0, max, "keys")
	agg, priv, pub := libunlynx.GenKeys(n)
	if len(priv) != n || len(pub) != n {
		x.Failf("GenKeys(%d) returned %d private and %d public keys", n, len(priv), len(pub))
		return
	}
	sk := s.Scalar().Zero()
	pk := s.Point().Null()
	seen := map[string]bool{}
	for i := range priv {
		if !s.Point().Mul(priv[i], nil).Equal(pub[i]) {
			x.Failf("key pair %d of %d does not match", i, n)
		}
		sk.Add(sk, priv[i])
		pk.Add(pk, pub[i])
		if seen[priv[i].String()] {
			x.Failf("duplicate key among %d", n)
		}
		seen[priv[i].String()] = true
	}
	if !agg.Equal(pk) || !agg.Equal(s.Point().Mul(sk, nil)) {
		x.Failf("collective key of %d servers is not the sum of the keys", n)
	}
	x.Obs("n%d", n)
}
