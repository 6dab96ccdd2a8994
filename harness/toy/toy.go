// Package toy provides the groups under which the real unlynx code is run.
//
//   - New(q): the additive group Z_q behind the kyber interfaces. Discrete logs
//     are trivial, so an oracle can read off plaintexts, keys and randomness, and
//     an operation costs nanoseconds: exhaustive enumeration becomes affordable.
//     unlynx only uses the group through these interfaces.
//   - Real(): the Ed25519 suite, with the random source under harness control.
//
// Every random draw (scalars and random streams) goes through Draw.
package toy

import (
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"hash"
	"io"
	"math/bits"
	"reflect"
	"sync/atomic"

	"go.dedis.ch/fixbuf"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
	"go.dedis.ch/kyber/v3/suites"
	"go.dedis.ch/kyber/v3/xof/blake2xb"
)

// OnOp, if set, is called at the start of every group operation.
var OnOp = func() {}

// DefaultQ is a Mersenne prime: large enough for no accidental collision.
const DefaultQ = uint64(1)<<61 - 1

// Draw decides every random draw: kind is "scalar" or "stream".
// It returns 64 bits of randomness.
var Draw func(kind string) uint64 = counterDraw

var ctr uint64
var seed uint64 = 1

// ResetDraw restarts the deterministic default source.
func ResetDraw(s uint64) { atomic.StoreUint64(&ctr, 0); seed = s; Draw = counterDraw }

func counterDraw(string) uint64 {
	return splitmix(seed*0x9E3779B97F4A7C15 + atomic.AddUint64(&ctr, 1))
}

func splitmix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

type stream struct{}

func (stream) XORKeyStream(dst, src []byte) {
	for i := 0; i < len(src); i += 8 {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], Draw("stream"))
		n := copy(b[:], b[:])
		for j := 0; j < n && i+j < len(src); j++ {
			dst[i+j] = src[i+j] ^ b[j]
		}
	}
}

// Suite is Z_q.
type Suite struct{ Q uint64 }

// New returns Z_q as a suite.
func New(q uint64) *Suite { return &Suite{q} }

func (s *Suite) String() string           { return "Toy" }
func (s *Suite) ScalarLen() int           { return 32 }
func (s *Suite) PointLen() int            { return 32 }
func (s *Suite) Scalar() kyber.Scalar     { return &Scalar{q: s.Q} }
func (s *Suite) Point() kyber.Point       { return &Point{q: s.Q} }
func (s *Suite) Hash() hash.Hash          { return sha256.New() }
func (s *Suite) XOF(key []byte) kyber.XOF { return blake2xb.New(key) }
func (s *Suite) RandomStream() cipher.Stream {
	return stream{}
}

// NewKey implements key.Generator.
func (s *Suite) NewKey(r cipher.Stream) kyber.Scalar { return s.Scalar().Pick(r) }

func (s *Suite) Read(r io.Reader, objs ...interface{}) error  { return fixbuf.Read(r, s, objs...) }
func (s *Suite) Write(w io.Writer, objs ...interface{}) error { return fixbuf.Write(w, objs) }

var (
	tScalar = reflect.TypeOf((*kyber.Scalar)(nil)).Elem()
	tPoint  = reflect.TypeOf((*kyber.Point)(nil)).Elem()
)

// New implements fixbuf's constructor interface.
func (s *Suite) New(t reflect.Type) interface{} {
	switch t {
	case tScalar:
		return s.Scalar()
	case tPoint:
		return s.Point()
	}
	return nil
}

var _ suites.Suite = (*Suite)(nil)

func mul(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi%q, lo, q)
	return r
}
func add(a, b, q uint64) uint64  { return uint64((bitsAdd(a, b)) % q) }
func bitsAdd(a, b uint64) uint64 { return a + b } // q < 2^62
func sub(a, b, q uint64) uint64  { return (a + q - b) % q }
func inv(a, q uint64) uint64 {
	r, e := uint64(1), q-2
	for e > 0 {
		if e&1 == 1 {
			r = mul(r, a, q)
		}
		a = mul(a, a, q)
		e >>= 1
	}
	return r
}

func enc(v uint64, tag byte) []byte {
	b := make([]byte, 32)
	binary.LittleEndian.PutUint64(b, v)
	b[8] = tag
	for i := 9; i < 31; i++ {
		b[i] = byte(v>>uint(i%8)) | 0x11
	}
	return b
}

func dec(b []byte, q uint64, tag byte) (uint64, error) {
	if len(b) != 32 {
		return 0, errors.New("toy: wrong length")
	}
	v := binary.LittleEndian.Uint64(b)
	if v >= q {
		return 0, errors.New("toy: not canonical")
	}
	w := enc(v, tag)
	for i := range w {
		if w[i] != b[i] {
			return 0, errors.New("toy: not on curve")
		}
	}
	return v, nil
}

func pick(r cipher.Stream, q uint64) uint64 {
	if x, ok := r.(kyber.XOF); ok {
		var b [16]byte
		x.XORKeyStream(b[:], b[:])
		return binary.LittleEndian.Uint64(b[:8]) % q
	}
	return Draw("scalar") % q
}

// Scalar mod q.
type Scalar struct{ q, V uint64 }

func (s *Scalar) set(v uint64) kyber.Scalar { s.V = v % s.q; return s }

// Equal implements kyber.Scalar.
func (s *Scalar) Equal(o kyber.Scalar) bool       { OnOp(); return s.V == o.(*Scalar).V }
func (s *Scalar) Set(a kyber.Scalar) kyber.Scalar { OnOp(); return s.set(a.(*Scalar).V) }
func (s *Scalar) Clone() kyber.Scalar             { OnOp(); return &Scalar{s.q, s.V} }
func (s *Scalar) SetInt64(v int64) kyber.Scalar {
	OnOp()
	if v >= 0 {
		return s.set(uint64(v) % s.q)
	}
	return s.set(sub(0, uint64(-v)%s.q, s.q))
}
func (s *Scalar) Zero() kyber.Scalar { OnOp(); return s.set(0) }
func (s *Scalar) One() kyber.Scalar  { OnOp(); return s.set(1) }
func (s *Scalar) Add(a, b kyber.Scalar) kyber.Scalar {
	OnOp()
	return s.set(add(a.(*Scalar).V, b.(*Scalar).V, s.q))
}
func (s *Scalar) Sub(a, b kyber.Scalar) kyber.Scalar {
	OnOp()
	return s.set(sub(a.(*Scalar).V, b.(*Scalar).V, s.q))
}
func (s *Scalar) Neg(a kyber.Scalar) kyber.Scalar { OnOp(); return s.set(sub(0, a.(*Scalar).V, s.q)) }
func (s *Scalar) Mul(a, b kyber.Scalar) kyber.Scalar {
	OnOp()
	return s.set(mul(a.(*Scalar).V, b.(*Scalar).V, s.q))
}
func (s *Scalar) Div(a, b kyber.Scalar) kyber.Scalar {
	OnOp()
	return s.set(mul(a.(*Scalar).V, inv(b.(*Scalar).V, s.q), s.q))
}
func (s *Scalar) Inv(a kyber.Scalar) kyber.Scalar   { OnOp(); return s.set(inv(a.(*Scalar).V, s.q)) }
func (s *Scalar) Pick(r cipher.Stream) kyber.Scalar { return s.set(pick(r, s.q)) }
func (s *Scalar) SetBytes(b []byte) kyber.Scalar {
	v := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		v = add(mul(v, 256, s.q), uint64(b[i])%s.q, s.q)
	}
	return s.set(v)
}
func (s *Scalar) MarshalBinary() ([]byte, error) { OnOp(); return enc(s.V, 0xA5), nil }
func (s *Scalar) UnmarshalBinary(b []byte) error {
	OnOp()
	v, err := dec(b, s.q, 0xA5)
	if err == nil {
		s.V = v
	}
	return err
}
func (s *Scalar) String() string                     { return hex.EncodeToString(enc(s.V, 0xA5)) }
func (s *Scalar) MarshalSize() int                   { return 32 }
func (s *Scalar) MarshalTo(w io.Writer) (int, error) { return w.Write(enc(s.V, 0xA5)) }
func (s *Scalar) UnmarshalFrom(r io.Reader) (int, error) {
	if st, ok := r.(cipher.Stream); ok {
		s.Pick(st)
		return -1, nil
	}
	b := make([]byte, 32)
	n, err := io.ReadFull(r, b)
	if err != nil {
		return n, err
	}
	return n, s.UnmarshalBinary(b)
}

// Point is V times the base point.
type Point struct{ q, V uint64 }

func (p *Point) set(v uint64) kyber.Point { p.V = v % p.q; return p }

// Equal implements kyber.Point.
func (p *Point) Equal(o kyber.Point) bool                    { OnOp(); return p.V == o.(*Point).V }
func (p *Point) Null() kyber.Point                           { OnOp(); return p.set(0) }
func (p *Point) Base() kyber.Point                           { OnOp(); return p.set(1) }
func (p *Point) Pick(r cipher.Stream) kyber.Point            { return p.set(pick(r, p.q)) }
func (p *Point) Set(a kyber.Point) kyber.Point               { OnOp(); return p.set(a.(*Point).V) }
func (p *Point) Clone() kyber.Point                          { OnOp(); return &Point{p.q, p.V} }
func (p *Point) EmbedLen() int                               { return 0 }
func (p *Point) Embed(d []byte, r cipher.Stream) kyber.Point { panic("toy: Embed") }
func (p *Point) Data() ([]byte, error)                       { return nil, errors.New("toy: Data") }
func (p *Point) Add(a, b kyber.Point) kyber.Point {
	OnOp()
	return p.set(add(a.(*Point).V, b.(*Point).V, p.q))
}
func (p *Point) Sub(a, b kyber.Point) kyber.Point {
	OnOp()
	return p.set(sub(a.(*Point).V, b.(*Point).V, p.q))
}
func (p *Point) Neg(a kyber.Point) kyber.Point { OnOp(); return p.set(sub(0, a.(*Point).V, p.q)) }
func (p *Point) Mul(s kyber.Scalar, a kyber.Point) kyber.Point {
	OnOp()
	v := uint64(1)
	if a != nil {
		v = a.(*Point).V
	}
	return p.set(mul(s.(*Scalar).V, v, p.q))
}
func (p *Point) MarshalBinary() ([]byte, error) { OnOp(); return enc(p.V, 0x5A), nil }
func (p *Point) UnmarshalBinary(b []byte) error {
	OnOp()
	v, err := dec(b, p.q, 0x5A)
	if err == nil {
		p.V = v
	}
	return err
}
func (p *Point) String() string                     { return hex.EncodeToString(enc(p.V, 0x5A)) }
func (p *Point) MarshalSize() int                   { return 32 }
func (p *Point) MarshalTo(w io.Writer) (int, error) { return w.Write(enc(p.V, 0x5A)) }
func (p *Point) UnmarshalFrom(r io.Reader) (int, error) {
	if st, ok := r.(cipher.Stream); ok {
		p.Pick(st)
		return -1, nil
	}
	b := make([]byte, 32)
	n, err := io.ReadFull(r, b)
	if err != nil {
		return n, err
	}
	return n, p.UnmarshalBinary(b)
}

// Log returns the discrete log of a toy point.
func Log(p kyber.Point) uint64 { return p.(*Point).V }

// LogS returns the value of a toy scalar.
func LogS(s kyber.Scalar) uint64 { return s.(*Scalar).V }

// ---- the real group under controlled randomness ----

// RealSuite is Ed25519 with harness-controlled randomness.
type RealSuite struct{ *edwards25519.SuiteEd25519 }

// Real returns the controlled Ed25519 suite.
func Real() *RealSuite { return &RealSuite{edwards25519.NewBlakeSHA256Ed25519()} }

// RandomStream is controlled by Draw.
func (s *RealSuite) RandomStream() cipher.Stream { return stream{} }

// NewKey picks a key from the controlled source (kyber's NewKey clamps, which
// needs no control).
func (s *RealSuite) NewKey(r cipher.Stream) kyber.Scalar { return s.Scalar().Pick(r) }

var _ suites.Suite = (*RealSuite)(nil)
