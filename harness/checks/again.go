package checks

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// The same servers run a protocol several times, with inputs that have a lot in
// common: what one run leaves behind must not show in the next ones.

func init() {
	engine.Register(&engine.Scenario{Name: "c07-again", Prop: "C07", Run: c07Again})
	engine.Register(&engine.Scenario{Name: "c08-again", Prop: "C08", Run: c08Again})
	engine.Register(&engine.Scenario{Name: "c09-again", Prop: "C09", Run: c09Again})
	engine.Register(&engine.Scenario{Name: "c15-again", Prop: "C15", Run: c15Again})
	engine.Register(&engine.Scenario{Name: "c17-again", Prop: "C17", Run: c17Again})
	engine.Register(&engine.Scenario{Name: "c05-operands", Prop: "C05", Run: c05Operands})
}

// againCV draws the next input: the same ciphertexts, in another order, some of
// them, other ones, or the result of the run before.
func againCV(x *engine.X, key kyber.Point, first, last libunlynx.CipherVector) libunlynx.CipherVector {
	switch x.Choose(5, "next input") {
	case 1:
		var r libunlynx.CipherVector
		for _, e := range copyCV(first) {
			r = append(libunlynx.CipherVector{e}, r...)
		}
		return r
	case 2:
		return copyCV(first)[1:]
	case 3:
		// the same first parts with other second parts
		r := copyCV(first)
		for i := range r {
			r[i].C = libunlynx.SuiTe.Point().Add(r[i].C, pt(int64(i+1)))
		}
		return append(r, *libunlynx.EncryptInt(key, 4))
	case 4:
		return copyCV(last)
	}
	return copyCV(first)
}

func againRuns(x *engine.X) int {
	if x.Thorough() {
		return 3
	}
	return 2
}

func c07Again(x *engine.X) {
	useToy(7)
	n := x.Int(1, 3, "servers")
	proofs := x.Bool("proofs")
	verifreset.Set("VPARALLELIZE", 2)
	desc := ""
	inCluster(x, n, func(c *cluster.Cluster) {
		par := make([]int, n-1)
		sec := collective(c)
		k1, p1 := libunlynx.GenKey()
		k2, p2 := libunlynx.GenKey()
		pairs := []struct {
			k kyber.Scalar
			p kyber.Point
		}{{k1, p1}, {k2, p2}, {sec, c.Roster.Aggregate}}
		first := someCV(c.Roster.Aggregate, 4)
		in := copyCV(first)
		for r := 0; r < againRuns(x); r++ {
			rot := 0
			if r > 0 && n > 1 {
				rot = x.Choose(2, "root")
			}
			to := x.Choose(3, "target key")
			out := c07Run(x, c, mkTree(c, par, rot), in, pairs[to].p, proofs, true)
			if x.Failed() {
				return
			}
			t := mkTree(c, par, rot)
			t.desc = sprintf("%s, run %d", t.desc, r+1)
			c07Check(x, t, sec, pairs[to].k, in, out)
			if x.Failed() {
				return
			}
			desc += sprintf("%d %d;", rot, to)
			if r+1 < againRuns(x) {
				in = againCV(x, c.Roster.Aggregate, first, out)
			}
		}
	})
	x.Obs("%d %v %s", n, proofs, desc)
}

func c08Again(x *engine.X) {
	useToy(8)
	n := x.Int(1, 2, "servers")
	pre := x.Bool("precomputed")
	verifreset.Set("VPARALLELIZE", 2)
	inCluster(x, n, func(c *cluster.Cluster) {
		par := make([]int, n-1)
		key := c.Roster.Aggregate
		first := rowsOf(key, [][]int64{{1, 2}, {3, 4}, {0, 0}}, false)
		in := first
		for r := 0; r < againRuns(x); r++ {
			t := mkTree(c, par, 0)
			t.desc = sprintf("%s, run %d", t.desc, r+1)
			if pre {
				// the lines of a precomputation may be used several times
				out := c08Run(x, c, t, in, c08opt{fifo: true, pre: true})
				if x.Failed() {
					return
				}
				if a, b := plainRows(collective(c), in), plainRows(collective(c), out); sprintf("%v", a) != sprintf("%v", b) {
					x.Failf("%s: the shuffled rows are not the input rows: %v instead of %v", t.desc, b, a)
					return
				}
				in = nextRows(x, key, first, out)
				continue
			}
			out := c08Run(x, c, t, in, c08opt{fifo: true, proofs: r > 0})
			c08Check(x, t.desc, collective(c), in, out)
			if x.Failed() {
				return
			}
			in = nextRows(x, key, first, out)
		}
	})
	x.Obs("%d %v", n, pre)
}

func nextRows(x *engine.X, key kyber.Point, first, last []libunlynx.CipherVector) []libunlynx.CipherVector {
	var r []libunlynx.CipherVector
	switch x.Choose(4, "next input") {
	case 0:
		for _, v := range first {
			r = append(r, copyCV(v))
		}
	case 1:
		for _, v := range last {
			r = append(r, copyCV(v))
		}
	case 2:
		r = append(r, copyCV(first[2]), copyCV(first[0]))
	case 3:
		r = append(rowsOf(key, [][]int64{{1, 2}}, false), copyCV(first[0]), copyCV(last[0]))
	}
	return r
}

// c09Again tags values for two surveys in turn.
func c09Again(x *engine.X) {
	useToy(9)
	n := x.Int(1, 2, "servers")
	verifreset.Set("VPARALLELIZE", 2)
	shared := x.Choose(n+1, "servers with the same secret in both surveys")
	desc := ""
	inCluster(x, n, func(c *cluster.Cluster) {
		par := make([]int, n-1)
		secrets := [2][]kyber.Scalar{surveySecrets(n), surveySecrets(n)}
		for i := 0; i < shared && i < n-1; i++ {
			secrets[1][i] = secrets[0][i]
		}
		vals := []int64{1, 0, 1, 9, -2}
		first := encAll(c.Roster.Aggregate, vals)
		other := encAll(c.Roster.Aggregate, []int64{9, -2, 1})
		var got [2][]string
		var was [2][]int64
		runs := 3
		if x.Thorough() {
			runs = 4
		}
		for r := 0; r < runs; r++ {
			s := x.Choose(2, "survey")
			rot := 0
			if n > 1 {
				rot = x.Choose(2, "root")
			}
			in, v := first, vals
			if x.Bool("other values") {
				in, v = other, []int64{9, -2, 1}
			}
			tags := c09Run(x, c, mkTree(c, par, rot), secrets[s], copyCV(in), false, true)
			if x.Failed() {
				return
			}
			got[s], was[s] = append(got[s], tags...), append(was[s], v...)
			desc += sprintf("%d %d %d;", s, rot, len(v))
		}
		for s := range got {
			c09Same(x, sprintf("survey %d of %s", s, desc), was[s], got[s])
		}
	})
	x.Obs("%d %d %s", n, shared, desc)
}

func c15Again(x *engine.X) {
	useToy(15)
	n := x.Int(1, 3, "servers")
	proofs := x.Bool("proofs")
	verifreset.Set("VPARALLELIZE", 2)
	inCluster(x, n, func(c *cluster.Cluster) {
		par := make([]int, n-1)
		for r := 0; r < 3; r++ {
			rot := 0
			if n > 1 {
				rot = x.Choose(2, "root")
			}
			var sub []int
			g := x.Choose(4, "groups")
			for s := 0; s < n; s++ {
				sub = append(sub, []int{3, 2 - s%2, 0, 1}[(g+s*(1+r%2))%4])
			}
			c15Run(x, c, mkTree(c, par, rot), c15Data(sub, 2, 1+r%2, 1), false, proofs, true)
			if x.Failed() {
				return
			}
		}
	})
	x.Obs("%d %v", n, proofs)
}

func c17Again(x *engine.X) {
	useToy(17)
	proofs := x.Bool("proofs")
	verifreset.Set("VPARALLELIZE", 2)
	inCluster(x, 1, func(c *cluster.Cluster) {
		sec, key := libunlynx.GenKey()
		k := []kyber.Scalar{nil, nil, sec}
		k[0], _ = libunlynx.GenKey()
		k[1], _ = libunlynx.GenKey()
		first := someCV(key, 4)
		in, secret := copyCV(first), sec
		for r := 0; r < againRuns(x)+1; r++ {
			w, add := x.Choose(3, "server"), x.Bool("add")
			before := copyCV(in)
			out := libunlynx.CipherVector(addRm(x, c, in, k[w], add, proofs))
			if x.Failed() {
				return
			}
			if !sameCV(before, in) {
				x.Failf("run %d changed its input", r+1)
			}
			to := libunlynx.SuiTe.Scalar().Sub(secret, k[w])
			if add {
				to = libunlynx.SuiTe.Scalar().Add(secret, k[w])
			}
			if len(out) != len(in) {
				x.Failf("run %d: %d ciphertexts become %d", r+1, len(in), len(out))
				return
			}
			for i := range out {
				if !plainPoint(to, out[i]).Equal(plainPoint(secret, in[i])) {
					x.Failf("run %d (server %d, add %v): ciphertext %d decrypts to another value", r+1, w, add, i)
					return
				}
			}
			if x.Bool("go on with the result") {
				in, secret = copyCV(out), to
			} else {
				in, secret = copyCV(first), sec
			}
		}
	})
	x.Obs("%v", proofs)
}

// c05Operands: vectors of ciphertexts that are equal, opposite, without
// randomness or the very same points, in every arrangement.
func c05Operands(x *engine.X) {
	suiteSmall(x)
	k, pub := libunlynx.GenKey()
	verifreset.Set("VPARALLELIZE", x.PickI("work split", 1, 2, 100))
	e := *libunlynx.EncryptInt(pub, 5)
	neg := *libunlynx.NewCipherText()
	neg.Sub(*libunlynx.NewCipherText(), e)
	type ev struct {
		c libunlynx.CipherText
		v int64
	}
	half := *libunlynx.EncryptInt(pub, 7)
	half.K, half.C = e.K, libunlynx.SuiTe.Point().Add(e.C, pt(2)) // the same first part
	all := []ev{{e, 5}, {copyCV(libunlynx.CipherVector{e})[0], 5}, {neg, -5}, {*libunlynx.NewCipherText(), 0}, {libunlynx.IntToCipherText(3), 3}, {half, 7}, {*libunlynx.EncryptInt(pub, 0), 0}}
	hi := 3
	if libunlynx.SuiTe != realSuite && x.Thorough() {
		hi = 4
	}
	n := x.Int(1, hi, "elements")
	var a libunlynx.CipherVector
	var v []int64
	sum := int64(0)
	for i := 0; i < n; i++ {
		o := all[x.Choose(len(all), "element")]
		a, v = append(a, o.c), append(v, o.v)
		sum += o.v
	}
	b, w := append(libunlynx.CipherVector{}, a...), append([]int64{}, v...)
	if n > 1 {
		b, w = append(b[1:], b[0]), append(w[1:], w[0])
	}
	before := copyCV(a)
	check := func(what string, cv libunlynx.CipherVector, want func(i int) int64) {
		for i := range cv {
			if !encodes(k, cv[i], want(i)) {
				x.Failf("%s of %v and %v: element %d is not an encryption of %d", what, v, w, i, want(i))
			}
		}
	}
	if s := a.Acum(); !encodes(k, s, sum) {
		x.Failf("the sum of %v is not an encryption of %d", v, sum)
	}
	r := libunlynx.NewCipherVector(n)
	r.Add(a, b)
	check("sum", *r, func(i int) int64 { return v[i] + w[i] })
	r = libunlynx.NewCipherVector(n)
	r.Sub(a, b)
	check("difference", *r, func(i int) int64 { return v[i] - w[i] })
	for i := range a {
		for _, m := range []int64{0, 1, -1, 2, -3} {
			var s libunlynx.CipherText
			s.MulCipherTextbyScalar(a[i], sc(m))
			if !encodes(k, s, m*v[i]) {
				x.Failf("%d times %d is wrong", m, v[i])
			}
		}
		for j := range b {
			if (a[i].Equal(&b[j])) != sameCT(a[i], b[j]) {
				x.Failf("the comparison of %d and %d is wrong", i, j)
			}
		}
	}
	if !sameCV(a, before) {
		x.Failf("an operation on %v modified its operands", v)
	}
	if a.Equal(&b) != sameCV(a, b) {
		x.Failf("the comparison of %v and %v is wrong", v, w)
	}
	x.Obs("%v", v)
}
