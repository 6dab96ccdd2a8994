package checks

import (
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/toy"
	"unlynxverif/verifreset"
	"unlynxverif/vsched"
)

// chunk boundary lengths (the vector code splits work every 100 elements)
var lengths = []int{0, 1, 2, 3, 7, 50, 99, 100, 101, 102, 150, 199, 200, 201, 299, 300, 301, 305}
var lengthsT = append(append([]int{}, lengths...), 399, 400, 401, 500, 501, 999, 1000, 1001, 1023, 1024, 1025)

func lens(x *engine.X) []int {
	if x.Thorough() {
		return lengthsT
	}
	return lengths
}

func copyCV(cv libunlynx.CipherVector) libunlynx.CipherVector {
	if cv == nil {
		return nil
	}
	r := make(libunlynx.CipherVector, len(cv))
	for i, c := range cv {
		if c.K != nil {
			r[i].K = c.K.Clone()
		}
		if c.C != nil {
			r[i].C = c.C.Clone()
		}
	}
	return r
}

func sameCT(a, b libunlynx.CipherText) bool {
	if (a.K == nil) != (b.K == nil) || (a.C == nil) != (b.C == nil) {
		return false
	}
	return (a.K == nil || a.K.Equal(b.K)) && (a.C == nil || a.C.Equal(b.C))
}

func sameCV(a, b libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameCT(a[i], b[i]) {
			return false
		}
	}
	return true
}

// plainPoint is the harness's own ElGamal decryption.
func plainPoint(k kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	return libunlynx.SuiTe.Point().Sub(c.C, libunlynx.SuiTe.Point().Mul(k, c.K))
}

// encodes tells whether c decrypts to v under k, by the harness's own arithmetic.
func encodes(k kyber.Scalar, c libunlynx.CipherText, v int64) bool {
	if c.K == nil || c.C == nil {
		return false
	}
	return plainPoint(k, c).Equal(libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(v), nil))
}

// toySigned reads the plaintext of a toy ciphertext as a signed integer.
func toySigned(k kyber.Scalar, c libunlynx.CipherText) int64 {
	v := toy.Log(plainPoint(k, c))
	if v > toy.DefaultQ/2 {
		return -int64(toy.DefaultQ - v)
	}
	return int64(v)
}

func toySignedV(k kyber.Scalar, cv libunlynx.CipherVector) []int64 {
	r := make([]int64, len(cv))
	for i := range cv {
		r[i] = toySigned(k, cv[i])
	}
	return r
}

func eqInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	Props["C05"] = Info{Level: "model_checking", Rule: "every combination of key, randomness, plaintexts and scalar in a small group (algebra); every operation x vector length around the work-split sizes (vectors); every interleaving of the chunk goroutines up to the preemption bound (sched). Non-trivial: each execution runs the real operation and is checked against integer arithmetic; leaves are distinct choice sequences.",
		Assume: []string{"the toy group Z_q stands in for Ed25519 in the enumerations; the real group runs the same drivers on fewer inputs"}}
	engine.Register(&engine.Scenario{Name: "c05-algebra", Prop: "C05", Run: c05Algebra})
	engine.Register(&engine.Scenario{Name: "c05-vectors", Prop: "C05", Run: func(x *engine.X) { useToy(7); c05Vectors(x, lens(x)) }})
	engine.Register(&engine.Scenario{Name: "c05-real", Prop: "C05", Run: func(x *engine.X) { useReal(7); c05Vectors(x, []int{0, 1, 2, 101}) }})
	engine.Register(&engine.Scenario{Name: "c05-chunks", Prop: "C05", Run: c05Chunks})
	engine.Register(&engine.Scenario{Name: "c05-threads", Prop: "C05", MaxDev: 1, MaxDevT: 2, Run: c05Threads})
	engine.Register(&engine.Scenario{Name: "c05-values", Prop: "C05", Run: c05Values})
	engine.Register(&engine.Scenario{Name: "c05-equal", Prop: "C05", Run: c05Equal})
}

// c05Algebra: every key, randomness and plaintext of Z_q.
func c05Algebra(x *engine.X) {
	q := uint64(5)
	if x.Thorough() {
		q = 7
	}
	s := toy.New(q)
	libunlynx.SuiTe = s
	toy.Draw = func(kind string) uint64 { return uint64(x.Choose(int(q), kind)) }
	defer toy.ResetDraw(1)
	kv := int64(x.Int(1, int(q)-1, "key"))
	k := s.Scalar().SetInt64(kv)
	pub := s.Point().Mul(k, nil)
	lim := int(q) / 2
	m1 := int64(x.Int(-lim, lim, "m1"))
	m2 := int64(x.Int(-lim, lim, "m2"))
	c1, r1 := libunlynx.EncryptIntGetR(pub, m1)
	c2 := libunlynx.EncryptInt(pub, m2)
	if !c1.K.Equal(s.Point().Mul(r1, nil)) {
		x.Failf("returned randomness does not match the ciphertext (r=%d)", toy.LogS(r1))
	}
	o1, o2 := libunlynx.CipherText{K: c1.K.Clone(), C: c1.C.Clone()}, libunlynx.CipherText{K: c2.K.Clone(), C: c2.C.Clone()}
	chk := func(what string, c libunlynx.CipherText, v int64) {
		if !encodes(k, c, v) {
			x.Failf("%s: key=%d m1=%d m2=%d decrypts to log %d, want %d", what, kv, m1, m2, toy.Log(plainPoint(k, c)), v)
		}
	}
	chk("encrypt", *c1, m1)
	chk("encrypt", *c2, m2)
	sum, dif := libunlynx.NewCipherText(), libunlynx.NewCipherText()
	sum.Add(*c1, *c2)
	chk("add", *sum, m1+m2)
	dif.Sub(*c1, *c2)
	chk("sub", *dif, m1-m2)
	a := int64(x.Int(-1, 2, "scalar"))
	mu := libunlynx.NewCipherText()
	mu.MulCipherTextbyScalar(*c1, s.Scalar().SetInt64(a))
	chk("scale", *mu, a*m1)
	if !sameCT(*c1, o1) || !sameCT(*c2, o2) {
		x.Failf("operands modified: m1=%d m2=%d", m1, m2)
	}
	// in place
	al := libunlynx.CipherText{K: c1.K.Clone(), C: c1.C.Clone()}
	al.Add(al, al)
	chk("add in place", al, 2*m1)
	al.Sub(al, *c1)
	chk("sub in place", al, m1)
	// receivers that are the second operand, or share its points with an operand
	cp := func(c *libunlynx.CipherText) libunlynx.CipherText {
		return libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
	}
	al = cp(c2)
	al.Add(*c1, al)
	chk("add into the second operand", al, m1+m2)
	al = cp(c2)
	al.Sub(*c1, al)
	chk("sub into the second operand", al, m1-m2)
	for w, sh := range []libunlynx.CipherText{*c1, *c2} {
		al = sh
		al.Add(*c1, *c2)
		chk(sprintf("add into operand %d's points", w+1), al, m1+m2)
		al = sh
		al.Sub(*c1, *c2)
		chk(sprintf("sub into operand %d's points", w+1), al, m1-m2)
		al = sh
		al.MulCipherTextbyScalar(*c1, s.Scalar().SetInt64(a))
		chk(sprintf("scale into operand %d's points", w+1), al, a*m1)
		if !sameCT(*c1, o1) || !sameCT(*c2, o2) {
			x.Failf("an operation into a copy of operand %d modified an operand: m1=%d m2=%d", w+1, m1, m2)
		}
	}
	z := libunlynx.DecryptCheckZero(k, *dif)
	if (z == 0) != ((m1-m2)%int64(q) == 0) {
		x.Failf("zero test of %d gives %d", m1-m2, z)
	}
	zv := libunlynx.DecryptCheckZeroVector(k, &libunlynx.CipherVector{*dif, *sum})
	if len(zv) != 2 || (zv[0] == 0) != ((m1-m2)%int64(q) == 0) || (zv[1] == 0) != ((m1+m2)%int64(q) == 0) {
		x.Failf("zero test of vector (%d,%d) gives %v", m1-m2, m1+m2, zv)
	}
	if eq := c1.Equal(c2); eq != (c1.K.Equal(c2.K) && c1.C.Equal(c2.C)) {
		x.Failf("Equal is %v", eq)
	}
	p := libunlynx.IntToCipherText(m1)
	chk("clear ciphertext", p, m1)
	es := libunlynx.EncryptScalar(pub, s.Scalar().SetInt64(m2))
	chk("encrypt scalar", *es, m2)
	x.Obs("%d", toy.Log(sum.C)*100+toy.Log(sum.K))
}

func vals(n int) []int64 {
	v := make([]int64, n)
	for i := range v {
		v[i] = int64((i*7)%23 + i/23)
	}
	return v
}

func c05Vectors(x *engine.X, ls []int) {
	n := ls[x.Choose(len(ls), "len")]
	op := x.Choose(9, "op")
	c05Op(x, n, op)
}

// c05Chunks: every length around small work-split sizes.
func c05Chunks(x *engine.X) {
	if x.Bool("real") {
		useReal(7)
	} else {
		useToy(7)
	}
	verifreset.Set("VPARALLELIZE", x.Int(1, 3, "chunk"))
	max := 7
	if x.Thorough() {
		max = 13
	}
	n := x.Int(0, max, "len")
	c05Op(x, n, x.Choose(9, "op"))
}

// c05Threads: every interleaving of the goroutines that a vector operation
// splits its work over, and of two vector operations on shared operands.
func c05Threads(x *engine.X) {
	useToy(7)
	verifreset.Set("VPARALLELIZE", 1)
	n := 2
	op := x.PickI("op", 0, 1, 2, 13, 14, 8) // 13, 14: addition and subtraction with fewer receivers
	cluster.Bubble(x, func() {
		ths := []cluster.Thread{{Name: "a", Body: func() { c05Op(x, n, op) }}}
		if !cluster.Threads(x, vsched.InPkg("lib"), time.Second, ths...) && !x.Failed() {
			x.Failf("operation %d on vectors of length %d does not finish", op, n)
		}
	})
}

func c05Op(x *engine.X, n, op int) {
	short := op > 10
	op %= 10
	k, pub := libunlynx.GenKey()
	v := vals(n)
	w := make([]int64, n)
	for i := range w {
		w[i] = int64((i * 5) % 17)
	}
	w0 := w
	chk := func(what string, cv libunlynx.CipherVector, want []int64) {
		if len(cv) != len(want) {
			x.Failf("%s: length %d, want %d", what, len(cv), len(want))
			return
		}
		for i := range cv {
			if !encodes(k, cv[i], want[i]) {
				x.Failf("%s: length %d, element %d does not decrypt to %d", what, n, i, want[i])
				return
			}
		}
	}
	// no two encryptions of this execution use the same randomness
	seen := map[string]string{}
	distinct := func(what string, cv ...libunlynx.CipherText) {
		for i := range cv {
			if cv[i].K == nil {
				return
			}
			if j, dup := seen[cv[i].K.String()]; dup {
				x.Failf("%s %d and %s use the same randomness", what, i, j)
				return
			}
			seen[cv[i].K.String()] = sprintf("%s %d", what, i)
		}
	}
	vcopy := append([]int64{}, v...)
	cv := *libunlynx.EncryptIntVector(pub, v)
	switch op {
	case 0:
		chk("encrypt vector", cv, vcopy)
		distinct("encrypt vector", cv...)
		cv2 := *libunlynx.EncryptIntVector(pub, v)
		distinct("encrypt vector again", cv2...)
		if n > 0 {
			distinct("encrypt int", *libunlynx.EncryptInt(pub, v[0]), *libunlynx.EncryptInt(pub, v[0]))
		}
		for i := range cv2 {
			if cv2[i].Equal(&cv[i]) {
				x.Failf("encrypting the same vector twice gives the same ciphertext at %d", i)
				break
			}
		}
		if !eqInts(v, vcopy) {
			x.Failf("encryption modified its input")
		}
	case 1:
		c, rs := libunlynx.EncryptIntVectorGetRs(pub, v)
		chk("encrypt vector with randomness", *c, v)
		distinct("encrypt vector with randomness", *c...)
		c2, _ := libunlynx.EncryptIntVectorGetRs(pub, v)
		distinct("encrypt vector with randomness again", *c2...)
		if n > 0 {
			c3, _ := libunlynx.EncryptIntGetR(pub, v[0])
			c4, _ := libunlynx.EncryptIntGetR(pub, v[0])
			distinct("encrypt int with randomness", *c3, *c4)
		}
		if len(rs) != n {
			x.Failf("returned %d random values for %d elements", len(rs), n)
			break
		}
		for i := range rs {
			if rs[i] == nil || !(*c)[i].K.Equal(libunlynx.SuiTe.Point().Mul(rs[i], nil)) {
				x.Failf("randomness %d does not match its ciphertext (length %d)", i, n)
				break
			}
		}
	case 2:
		sc := make([]kyber.Scalar, n)
		for i := range sc {
			sc[i] = libunlynx.SuiTe.Scalar().SetInt64(v[i])
		}
		c := *libunlynx.EncryptScalarVector(pub, sc)
		chk("encrypt scalars", c, v)
		distinct("encrypt scalars", c...)
		distinct("encrypt scalars again", *libunlynx.EncryptScalarVector(pub, sc)...)
		if n > 0 {
			distinct("encrypt scalar", *libunlynx.EncryptScalar(pub, sc[0]), *libunlynx.EncryptScalar(pub, sc[0]))
		}
		null := *libunlynx.NullCipherVector(n, pub)
		chk("null vector", null, make([]int64, n))
		distinct("null vector", null...)
		distinct("null vector again", *libunlynx.NullCipherVector(n, pub)...)
		chk("clear vector", libunlynx.IntArrayToCipherVector(v), v)
	case 3, 4:
		cw := *libunlynx.EncryptIntVector(pub, w)
		o1, o2 := copyCV(cv), copyCV(cw)
		res := libunlynx.NewCipherVector(n)
		want := make([]int64, n)
		for i := range want {
			if op == 3 {
				want[i] = v[i] + w[i]
			} else {
				want[i] = v[i] - w[i]
			}
		}
		if op == 3 {
			res.Add(cv, cw)
		} else {
			res.Sub(cv, cw)
		}
		chk("vector add/sub", *res, want)
		if !sameCV(cv, o1) || !sameCV(cw, o2) {
			x.Failf("vector operation modified an operand (length %d)", n)
		}
		// accumulate in place
		acc := copyCV(cv)
		if op == 3 {
			acc.Add(acc, cw)
		} else {
			acc.Sub(acc, cw)
		}
		chk("vector add/sub in place", acc, want)
		if !sameCV(cw, o2) {
			x.Failf("in-place vector operation modified its argument (length %d)", n)
		}
		if short {
			break
		}
		do := func(r *libunlynx.CipherVector, a, b libunlynx.CipherVector) {
			if op == 3 {
				r.Add(a, b)
			} else {
				r.Sub(a, b)
			}
		}
		// other receivers: the second operand, a vector already used, one that shares its points with the operands
		acc = copyCV(cw)
		do(&acc, cv, acc)
		chk("vector add/sub into the second operand", acc, want)
		for w, r := range []libunlynx.CipherVector{copyCV(cv), append(libunlynx.CipherVector{}, cv...), append(libunlynx.CipherVector{}, cw...)} {
			do(&r, cv, cw)
			chk(sprintf("vector add/sub into a used vector (%d)", w), r, want)
			do(&r, cv, cv)
			for i := range want {
				if op == 3 {
					want[i] = 2 * v[i]
				} else {
					want[i] = 0
				}
			}
			chk(sprintf("vector add/sub of a vector with itself (%d)", w), r, want)
			for i := range want {
				if op == 3 {
					want[i] = v[i] + w0[i]
				} else {
					want[i] = v[i] - w0[i]
				}
			}
			if !sameCV(cv, o1) || !sameCV(cw, o2) {
				x.Failf("vector operation into a used vector (%d) modified an operand (length %d)", w, n)
			}
		}
	case 8:
		// two concurrent operations on the same operands
		cw := *libunlynx.EncryptIntVector(pub, w)
		o1, o2 := copyCV(cv), copyCV(cw)
		r1, r2 := libunlynx.NewCipherVector(n), libunlynx.NewCipherVector(n)
		s1, s2 := make([]int64, n), make([]int64, n)
		for i := range v {
			s1[i], s2[i] = v[i]+w[i], v[i]-w[i]
		}
		var wg sync.WaitGroup
		wg.Add(2)
		tok1, tok2 := vsched.Tok(), vsched.Tok()
		go func() { defer wg.Done(); vsched.Born(tok1); r1.Add(cv, cw) }()
		go func() { defer wg.Done(); vsched.Born(tok2); r2.Sub(cv, cw) }()
		wg.Wait()
		chk("concurrent add", *r1, s1)
		chk("concurrent sub", *r2, s2)
		if !sameCV(cv, o1) || !sameCV(cw, o2) {
			x.Failf("vector operation modified an operand (length %d)", n)
		}
	case 5:
		if n == 0 {
			break
		}
		o := copyCV(cv)
		s := int64(0)
		for _, e := range v {
			s += e
		}
		a := cv.Acum()
		if !encodes(k, a, s) {
			x.Failf("sum of a vector of length %d is wrong", n)
		}
		if !sameCV(cv, o) {
			x.Failf("summing modified the vector (length %d)", n)
		}
	case 6:
		o := copyCV(cv)
		if d := libunlynx.DecryptIntVector(k, &cv); !eqInts(d, v) {
			x.Failf("decrypt vector of length %d: got %v want %v", n, d, v)
		}
		neg := make([]int64, n)
		for i := range neg {
			neg[i] = w[i] - 8
		}
		cn := libunlynx.EncryptIntVector(pub, neg)
		// positive table first, then negative values
		if d := libunlynx.DecryptIntVectorWithNeg(k, cn); !eqInts(d, neg) {
			x.FailKey("c05:signed-decrypt", "signed decrypt of length %d: got %v want %v", n, d, neg)
		}
		if !sameCV(cv, o) {
			x.Failf("decryption modified the vector")
		}
	case 7:
		z := libunlynx.DecryptCheckZeroVector(k, &cv)
		for i := range z {
			if (z[i] == 0) != (v[i] == 0) {
				x.Failf("zero test %d of length %d: %d for %d", i, n, z[i], v[i])
			}
		}
		if len(z) != n {
			x.Failf("zero test of length %d returned %d", n, len(z))
		}
	}
	x.Obs("op%d n%d", op, n)
}

// c05Values: every value of a range through encrypt/decrypt.
func c05Values(x *engine.X) {
	useToy(3)
	k, pub := libunlynx.GenKey()
	lo, hi := int64(-300), int64(1500)
	if x.Thorough() {
		lo, hi = -3000, 20000
	}
	libunlynx.CreateDecryptionTable(hi, pub, k)
	for v := lo; v <= hi; v++ {
		c := libunlynx.EncryptInt(pub, v)
		if d := libunlynx.DecryptIntWithNeg(k, *c); d != v {
			x.Failf("signed decryption of %d gives %d", v, d)
			return
		}
		if v >= 0 {
			if d := libunlynx.DecryptInt(k, *c); d != v {
				x.Failf("decryption of %d gives %d", v, d)
				return
			}
		}
	}
	x.Count("values", int(hi-lo+1))
}

func c05Equal(x *engine.X) {
	s := useToy(5)
	mk := func(tag string) libunlynx.CipherVector {
		n := x.Int(-1, 2, tag)
		if n < 0 {
			return nil
		}
		cv := make(libunlynx.CipherVector, n)
		for i := range cv {
			cv[i] = libunlynx.CipherText{K: s.Point().Mul(s.Scalar().SetInt64(int64(x.Choose(2, "K"))), nil), C: s.Point().Mul(s.Scalar().SetInt64(int64(x.Choose(2, "C"))), nil)}
		}
		return cv
	}
	a, b := mk("len a"), mk("len b")
	if got, want := a.Equal(&b), sameCV(a, b); got != want {
		x.Failf("Equal(%v,%v)=%v", a, b, got)
	}
	da, db := libunlynx.DeterministCipherVector{}, libunlynx.DeterministCipherVector{}
	same := len(a) == len(b)
	for i := range a {
		da = append(da, libunlynx.DeterministCipherText{Point: a[i].C})
	}
	for i := range b {
		db = append(db, libunlynx.DeterministCipherText{Point: b[i].C})
		if same && !a[i].C.Equal(b[i].C) {
			same = false
		}
	}
	if da.Equal(&db) != same {
		x.Failf("deterministic Equal(%v,%v)=%v", da, db, !same)
	}
	if (da.Key() == db.Key()) != same {
		x.Failf("deterministic keys of %v and %v: equal=%v want %v", da, db, !same, same)
	}
	x.Obs("%v", same)
}
