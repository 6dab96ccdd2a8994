package checks

import (
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C23"] = Info{Level: "fault_enumeration", Rule: "every sequence of up to two (thorough: three) survey creations with different keys and sizes on one precomputation file, with the file removed, truncated, zero-filled or mixed with another one in between; every truncation, zeroed tail, zeroed block and mixture point of the file (quick: on a grid); a write that fails, and a process that is killed, at every byte offset of the file (quick: on a grid of offsets); after every one of them the next creation must return randomness of the requested key and size; every shuffle of small matrices with every width of the precomputed lines.",
		Assume: []string{"a crash leaves a prefix of what was written, or a file with a zeroed or stale tail"}}
	engine.Register(&engine.Scenario{Name: "c23-history", Prop: "C23", Run: c23History})
	engine.Register(&engine.Scenario{Name: "c23-torn", Prop: "C23", Run: c23Torn})
	engine.Register(&engine.Scenario{Name: "c23-write-fails", Prop: "C23", Run: c23WriteFails})
	engine.Register(&engine.Scenario{Name: "c23-killed", Prop: "C23", Run: c23Killed})
	engine.Register(&engine.Scenario{Name: "c23-many", Prop: "C23", Run: c23Many})
	engine.Register(&engine.Scenario{Name: "c23-shuffle", Prop: "C23", Run: c23Shuffle})
}

type precompReq struct {
	app      bool
	key      int
	lineSize int
}

func c23Key(i int) (kyber.Scalar, kyber.Point) {
	s := libunlynx.SuiTe.Scalar().SetInt64(int64(2 + 3*i))
	return s, libunlynx.SuiTe.Point().Mul(s, nil)
}

func (r precompReq) call(f string) ([]libunlynxshuffle.CipherVectorScalar, error) {
	_, pub := c23Key(r.key)
	secret := libunlynx.SuiTe.Scalar().SetInt64(int64(100 + r.key))
	return libunlynxshuffle.PrecomputationWritingForShuffling(r.app, f, "server", secret, pub, r.lineSize)
}

func checkPrecomp(x *engine.X, what string, r precompReq, p []libunlynxshuffle.CipherVectorScalar, err error) bool {
	if err != nil {
		x.Failf("%s: the precomputation fails: %v", what, err)
		return false
	}
	if len(p) == 0 {
		x.Failf("%s: no precomputed values", what)
		return false
	}
	_, pub := c23Key(r.key)
	for i, l := range p {
		if len(l.S) < r.lineSize || len(l.CipherV) < r.lineSize {
			x.Failf("%s: line %d has %d scalars and %d ciphertexts for rows of %d", what, i, len(l.S), len(l.CipherV), r.lineSize)
			return false
		}
		for j := range l.CipherV {
			if j >= len(l.S) || !l.CipherV[j].K.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], nil)) || !l.CipherV[j].C.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], pub)) {
				x.Failf("%s: element %d of line %d is not an encryption of zero under the requested key", what, j, i)
				return false
			}
		}
	}
	return true
}

func (r precompReq) String() string {
	return "(app " + strconv.FormatBool(r.app) + ", key " + strconv.Itoa(r.key) + ", size " + strconv.Itoa(r.lineSize) + ")"
}

func pickReq(x *engine.X) precompReq {
	return precompReq{app: true, key: x.Choose(2, "key"), lineSize: x.PickI("size", 2, 1, 4)}
}

func c23History(x *engine.X) {
	n := 2
	if x.Thorough() {
		n = 3
	}
	n = x.Int(1, n, "steps")
	if n < 3 && x.Thorough() {
		suiteSmall(x)
	} else {
		useToy(5)
	}
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pre.gob")
	var what []string
	for i := 0; i < n; i++ {
		if i > 0 {
			switch x.Choose(5, "file") {
			case 1:
				os.Remove(f)
				what = append(what, "removed")
			case 2:
				b, _ := os.ReadFile(f)
				os.WriteFile(f, b[:len(b)*x.Choose(3, "part")/3], 0600)
				what = append(what, "truncated")
			case 3:
				b, _ := os.ReadFile(f)
				for j := len(b) * (1 + x.Choose(2, "part")) / 3; j < len(b); j++ {
					b[j] = 0
				}
				os.WriteFile(f, b, 0600)
				what = append(what, "zeroed")
			case 4:
				// the next server of the same machine shares the folder
				os.WriteFile(filepath.Join(dir, "pre.gob.tmp"), []byte("x"), 0600)
				os.WriteFile(filepath.Join(dir, "pre.gob~"), nil, 0600)
				what = append(what, "leftovers")
			}
		}
		r := pickReq(x)
		if i == 0 {
			r.app = !x.Bool("first without file")
		}
		what = append(what, r.String())
		p, err := r.call(f)
		if !checkPrecomp(x, strings.Join(what, " "), r, p, err) {
			return
		}
		c23Use(x, strings.Join(what, " "), r, p)
	}
}

// suiteSmall: toy mostly, the real curve for one more copy of the space.
func suiteSmall(x *engine.X) {
	if x.Bool("real curve") {
		useReal(5)
	} else {
		useToy(5)
	}
}

// c23Use shuffles with the values and decrypts.
func c23Use(x *engine.X, what string, r precompReq, p []libunlynxshuffle.CipherVectorScalar) {
	c23Rows(x, what, r, p, 2)
}

// c23Many: more rows than precomputed lines.
func c23Many(x *engine.X) {
	useToy(5)
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pre.gob")
	r := precompReq{app: x.Bool("file"), key: x.Choose(2, "key"), lineSize: x.Int(1, 4, "line")}
	n := x.PickI("rows", 1, 5, 9, 10, 11, 12, 13, 19, 20, 21, 24, 25, 30, 50, 101, 257)
	chunk := x.PickI("chunk", 1, 3, 100)
	p, err := r.call(f)
	if err == nil && r.app && x.Bool("from the file") {
		p, err = r.call(f)
	}
	if err != nil {
		x.Failf("no precomputed values: %v", err)
		return
	}
	verifreset.Set("VPARALLELIZE", chunk)
	c23Rows(x, sprintf("%d rows", n), r, p, n)
	x.Obs("%d", n)
}

func c23Rows(x *engine.X, what string, r precompReq, p []libunlynxshuffle.CipherVectorScalar, rows int) {
	sec, pub := c23Key(r.key)
	in := make([]libunlynx.CipherVector, rows)
	for i := range in {
		in[i] = make(libunlynx.CipherVector, r.lineSize)
		for j := range in[i] {
			in[i][j] = *libunlynx.EncryptInt(pub, int64(3*i+j))
		}
	}
	checkShuffled(x, what, sec, pub, in, p)
}

func checkShuffled(x *engine.X, what string, sec kyber.Scalar, pub kyber.Point, in []libunlynx.CipherVector, p []libunlynxshuffle.CipherVectorScalar) {
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), pub, p)
	if len(out) != len(in) || len(pi) != len(in) || len(beta) != len(in) {
		x.Failf("%s: %d rows became %d (%d,%d)", what, len(in), len(out), len(pi), len(beta))
		return
	}
	seen := map[int]bool{}
	for i, row := range out {
		k := pi[i]
		if k < 0 || k >= len(in) || seen[k] {
			x.Failf("%s: %v is no permutation", what, pi)
			return
		}
		seen[k] = true
		if len(row) != len(in[k]) || len(beta[k]) < len(row) {
			x.Failf("%s: a row of %d became one of %d (%d factors)", what, len(in[k]), len(row), len(beta[k]))
			return
		}
		for j := range row {
			if !plainPoint(sec, row[j]).Equal(plainPoint(sec, in[k][j])) {
				x.Failf("%s: element %d of row %d decrypts to another value", what, j, i)
			}
			if !row[j].K.Equal(libunlynx.SuiTe.Point().Add(in[k][j].K, libunlynx.SuiTe.Point().Mul(beta[k][j], nil))) {
				x.Failf("%s: element %d of row %d is not re-randomised with the factor that was returned", what, j, i)
			}
		}
	}
}

// c23Base writes a valid file and returns its content.
func c23Base(f string, r precompReq) []byte {
	if _, err := r.call(f); err != nil {
		panic(err)
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	os.Remove(f)
	return b
}

func c23Torn(x *engine.X) {
	div := 200
	if x.Bool("real curve") {
		useReal(5)
		div = 30
	} else {
		useToy(5)
	}
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pre.gob")
	r := precompReq{app: true, key: 0, lineSize: 1}
	next := r
	if x.Bool("next survey is larger") {
		next.lineSize = 3
	}
	b := c23Base(f, r)
	kind := x.Choose(4, "kind")
	step := 1
	if !x.Thorough() {
		step = 1 + len(b)/div
	}
	at := step * x.Choose(1+len(b)/step, "at")
	switch kind {
	case 0:
		b = b[:at]
	case 1:
		for j := at; j < len(b); j++ {
			b[j] = 0
		}
	case 2: // one block of zeroes
		for j := at; j < len(b) && j < at+64; j++ {
			b[j] = 0
		}
	case 3: // tail of the file of another survey
		o := c23Base(f, precompReq{app: true, key: 1, lineSize: 1 + x.Choose(2, "other size")})
		if at < len(o) {
			b = append(append([]byte{}, b[:at]...), o[at:]...)
		}
	}
	if err := os.WriteFile(f, b, 0600); err != nil {
		panic(err)
	}
	for i := 0; i < 2; i++ {
		p, err := next.call(f)
		if !checkPrecomp(x, sprintf("file damaged (%d) at byte %d, creation %d", kind, at, i), next, p, err) {
			return
		}
	}
}

// c23WriteFails: the disk accepts only the first k bytes.
func c23WriteFails(x *engine.X) {
	useToy(5)
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pre.gob")
	r := precompReq{app: true, key: 0, lineSize: 1}
	size := len(c23Base(f, r))
	old := x.Bool("older file")
	if old {
		c := r
		c.key = 1
		if _, err := c.call(f); err != nil {
			panic(err)
		}
	}
	step := 1
	if !x.Thorough() {
		step = 1 + size/200
	}
	k := step * x.Choose(1+(size-1)/step, "bytes")
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: lim.Max})
	p, err := r.call(f)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	if err == nil {
		x.Obs("no error")
		if !checkPrecomp(x, sprintf("write failed after %d bytes", k), r, p, err) {
			return
		}
	} else {
		x.Obs("error")
	}
	if !x.Bool("same survey again") {
		r.key = 1
	}
	p, err = r.call(f)
	checkPrecomp(x, sprintf("after a write that failed at byte %d", k), r, p, err)
}

// Child is the process that c23-killed kills; see main_test.go.
func Child(args []string) {
	k, _ := strconv.Atoi(args[0])
	useToy(5)
	// the kernel ends the process in the middle of the write
	var dfl [4]uint64
	syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&dfl)), 0, 8, 0, 0)
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: uint64(k)})
	_, err := precompReq{app: true, key: 0, lineSize: 1}.call(args[1])
	if err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func c23Killed(x *engine.X) {
	useToy(5)
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pre.gob")
	r := precompReq{app: true, key: 0, lineSize: 1}
	size := len(c23Base(f, r))
	if x.Bool("older file") {
		c := r
		c.key = 1
		if _, err := c.call(f); err != nil {
			panic(err)
		}
	}
	step := 1 + size/8
	if x.Thorough() {
		step = 1 + size/200
	}
	k := step * x.Choose(1+(size-1)/step, "bytes")
	c := exec.Command(os.Args[0], "-test.run=^TestChild$")
	c.Env = append(os.Environ(), "VERIF_ROLE=child", "VERIF_CHILD="+strconv.Itoa(k)+" "+f)
	c.Dir = dir
	err := c.Run()
	x.Obs("killed: %v", err)
	p, err := r.call(f)
	checkPrecomp(x, sprintf("after the server was killed when it had written %d bytes", k), r, p, err)
}

func c23Shuffle(x *engine.X) {
	suiteSmall(x)
	sec, pub := c23Key(0)
	rows := x.Int(1, 3, "rows")
	nq := x.Int(1, 3, "width")
	lines := x.Int(0, 3, "lines")
	var p []libunlynxshuffle.CipherVectorScalar
	w := 0
	if lines > 0 {
		w = x.Int(0, 4, "line width")
		p = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), pub, libunlynx.SuiTe.XOF([]byte("seed")), w, lines)
		if len(p) != lines {
			x.Failf("%d lines instead of %d", len(p), lines)
			return
		}
		r := precompReq{key: 0, lineSize: w}
		if !checkPrecomp(x, "CreatePrecomputedRandomize", r, p, nil) {
			return
		}
		if x.Bool("last line is short") && w > 0 {
			l := &p[lines-1]
			l.S, l.CipherV = l.S[:w-1], l.CipherV[:w-1]
		}
	} else if x.Bool("empty") {
		p = []libunlynxshuffle.CipherVectorScalar{}
	}
	in := make([]libunlynx.CipherVector, rows)
	for i := range in {
		in[i] = make(libunlynx.CipherVector, nq)
		for j := range in[i] {
			in[i][j] = *libunlynx.EncryptInt(pub, int64(i+j))
		}
	}
	keep := make([]libunlynx.CipherVector, rows)
	for i := range in {
		keep[i] = copyCV(in[i])
	}
	checkShuffled(x, sprintf("%d rows of %d with %d lines of %d", rows, nq, lines, w), sec, pub, in, p)
	for i := range p {
		for j := range p[i].S {
			if !p[i].CipherV[j].K.Equal(libunlynx.SuiTe.Point().Mul(p[i].S[j], nil)) {
				x.Failf("the precomputed values were changed")
			}
		}
	}
	for i := range in {
		if !sameCV(keep[i], in[i]) {
			x.Failf("the input rows were changed")
		}
	}
}
