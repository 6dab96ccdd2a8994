package checks

import (
	"fmt"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/vsched"
)

func init() {
	Props["C06"] = Info{Level: "model_checking", Rule: "history: every sequence of signed/unsigned decryptions and table constructions up to the depth over a small value alphabet, each from a fresh process state; threads: every interleaving, statement by statement, of concurrent decryptions up to the preemption bound.",
		Assume: []string{"values up to 6 in the enumerations, up to the supported bound 99999 in c06-range; toy group (the table only uses Add, Equal and String of points)"}}
	engine.Register(&engine.Scenario{Name: "c06-history", Prop: "C06", Run: c06History})
	engine.Register(&engine.Scenario{Name: "c06-range", Prop: "C06", Run: c06Range})
	engine.Register(&engine.Scenario{Name: "c06-real", Prop: "C06", Run: c06Real})
	engine.Register(&engine.Scenario{Name: "c06-threads", Prop: "C06", MaxDev: 2, MaxDevT: 3, Run: c06Threads})
	engine.Register(&engine.Scenario{Name: "c06-threads3", Prop: "C06", MaxDev: 1, MaxDevT: 2, Run: c06Threads3})
}

type decOp struct {
	kind int // 0 unsigned, 1 signed, 2 table, 3 unsigned vector, 4 signed vector
	v    int64
}

func (o decOp) String() string {
	return fmt.Sprintf("%s(%d)", []string{"dec", "decNeg", "table", "decVec", "decNegVec"}[o.kind], o.v)
}

var c06ops = []decOp{{0, 0}, {0, 1}, {0, 3}, {0, 6}, {1, 0}, {1, 1}, {1, -1}, {1, 3}, {1, -3}, {1, 6}, {1, -6}, {2, 2}, {2, 4}, {3, 4}, {4, -4}}

// prep encrypts the operands of an operation and returns the operation itself,
// which describes a wrong result.
func (o decOp) prep(k kscalar, pub kpoint) func() string {
	switch o.kind {
	case 0, 1:
		c := *libunlynx.EncryptInt(pub, o.v)
		return func() string {
			d := int64(0)
			if o.kind == 0 {
				d = libunlynx.DecryptInt(k, c)
			} else {
				d = libunlynx.DecryptIntWithNeg(k, c)
			}
			if d != o.v {
				return fmt.Sprintf("%v gives %d", o, d)
			}
			return ""
		}
	case 3, 4:
		w := []int64{o.v, 0, o.v / 2}
		if o.kind == 4 {
			w = []int64{o.v, 1, -o.v, 0}
		}
		cv := libunlynx.EncryptIntVector(pub, w)
		return func() string {
			var d []int64
			if o.kind == 3 {
				d = libunlynx.DecryptIntVector(k, cv)
			} else {
				d = libunlynx.DecryptIntVectorWithNeg(k, cv)
			}
			if !eqInts(d, w) {
				return fmt.Sprintf("%v gives %v, want %v", o, d, w)
			}
			return ""
		}
	}
	return func() string {
		libunlynx.CreateDecryptionTable(o.v, pub, k)
		return ""
	}
}

func runDec(o decOp, k kscalar, pub kpoint) string { return o.prep(k, pub)() }

func c06History(x *engine.X) {
	useToy(6)
	k, pub := libunlynx.GenKey()
	depth := 4
	if x.Thorough() {
		depth = 5
	}
	var hist []string
	for i := 0; i < depth; i++ {
		o := c06ops[x.Choose(len(c06ops), "op")]
		hist = append(hist, o.String())
		if bad := runDec(o, k, pub); bad != "" {
			x.Failf("after %s: %s", strings.Join(hist[:i], " "), bad)
			return
		}
	}
	x.Obs("%s", strings.Join(hist, " "))
}

// c06Range: values near the bound of the supported range, in several orders.
func c06Range(x *engine.X) {
	useToy(6)
	k, pub := libunlynx.GenKey()
	max := libunlynx.MaxHomomorphicInt - 1
	ops := []decOp{{0, max}, {1, max}, {1, -max}, {0, max / 2}, {1, -max / 2}, {1, -1}, {0, 101}, {2, max}, {2, 1000}}
	var hist []string
	n := 2
	if x.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		o := ops[x.Choose(len(ops), "op")]
		hist = append(hist, o.String())
		if bad := runDec(o, k, pub); bad != "" {
			x.Failf("after %s: %s", strings.Join(hist[:i], " "), bad)
			return
		}
	}
	x.Obs("%s", strings.Join(hist, " "))
}

func c06Real(x *engine.X) {
	useReal(6)
	k, pub := libunlynx.GenKey()
	var hist []string
	for i := 0; i < 3; i++ {
		o := c06ops[1:12][x.Choose(11, "op")]
		hist = append(hist, o.String())
		if bad := runDec(o, k, pub); bad != "" {
			x.Failf("after %s: %s", strings.Join(hist[:i], " "), bad)
			return
		}
	}
	x.Obs("%s", strings.Join(hist, " "))
}

func c06Threads(x *engine.X) {
	useToy(6)
	progs := [][][]decOp{
		{{{0, 2}}, {{0, 3}}},
		{{{1, -2}}, {{0, 2}}},
		{{{1, -2}}, {{1, -3}}},
		{{{0, 2}}, {{1, -1}, {1, 2}}},
		{{{2, 2}}, {{0, 2}, {1, -1}}},
	}
	if x.Thorough() {
		progs = append(progs, [][]decOp{{{0, 1}, {0, 2}}, {{1, -2}, {0, 3}}})
	}
	c06Progs(x, progs)
}

func c06Threads3(x *engine.X) {
	useToy(6)
	c06Progs(x, [][][]decOp{
		{{{0, 1}}, {{0, 2}}, {{1, -1}}},
		{{{2, 2}}, {{0, 3}}, {{1, -3}}},
	})
}

func c06Progs(x *engine.X, progs [][][]decOp) {
	k, pub := libunlynx.GenKey()
	p := progs[x.Choose(len(progs), "program")]
	pre := x.Int(0, 3, "history")
	cluster.Bubble(x, func() {
		switch pre {
		case 1:
			runDec(decOp{0, 1}, k, pub)
		case 2:
			runDec(decOp{1, -1}, k, pub)
		case 3: // everything is in the table, the operands of the first thread are the last ones used
			for _, v := range []int64{-3, 3, 2, -2, -1, 1} {
				runDec(decOp{1, v}, k, pub)
			}
			for i := 0; i < 2; i++ {
				for _, o := range p[0] {
					runDec(o, k, pub)
				}
			}
		}
		var ths []cluster.Thread
		for i, ops := range p {
			i, ops := i, ops
			var fs []func() string
			for _, o := range ops {
				fs = append(fs, o.prep(k, pub))
			}
			ths = append(ths, cluster.Thread{Name: fmt.Sprintf("t%d", i), Body: func() {
				for j, f := range fs {
					if bad := f(); bad != "" {
						x.Failf("thread %d of %v (operation %d): %s", i, p, j, bad)
					}
				}
			}})
		}
		if !cluster.Threads(x, vsched.InPkg("lib"), time.Second, ths...) && !x.Failed() {
			x.Failf("decryptions of %v do not finish", p)
		}
	})
	// the table left behind must still be right
	for _, o := range c06ops[:11] {
		if bad := runDec(o, k, pub); bad != "" {
			x.Failf("after concurrent %v: %s", p, bad)
			return
		}
	}
	x.Obs("%v %d", p, pre)
}
