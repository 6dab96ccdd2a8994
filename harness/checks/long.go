package checks

import (
	"fmt"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Histories and objects far longer than those whose every variation is
// enumerated: the patterns are enumerated, their length is fixed.

func init() {
	engine.Register(&engine.Scenario{Name: "c04-long", Prop: "C04", Run: c04Long})
	engine.Register(&engine.Scenario{Name: "c06-long", Prop: "C06", Run: c06Long})
	engine.Register(&engine.Scenario{Name: "c10-huge", Prop: "C10", Run: c10Huge})
	engine.Register(&engine.Scenario{Name: "c18-periodic", Prop: "C18", Run: c18Periodic})
}

// c04Long: a long series of surveys on the same servers, of which some are open
// at the same time.
func c04Long(x *engine.X) {
	useToy(4)
	k := 40
	if x.Thorough() {
		k = 300
	}
	n := x.Int(2, 3, "servers")
	window := []int{1, 4, k}[x.Choose(3, "open surveys")]
	lifo := x.Bool("last first")
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.FIFO = true
		var open []*survey
		// finish ends one of the open surveys
		finish := func() bool {
			at := 0
			if lifo {
				at = len(open) - 1
			}
			v := open[at]
			open = append(open[:at:at], open[at+1:]...)
			for v.step < v.ops() {
				if !v.next() {
					return false
				}
			}
			return true
		}
		for i := 0; i < k; i++ {
			v := &survey{c: c, x: x, name: sprintf("%d", i), at: i % n}
			switch i % 4 {
			case 0:
				v.q, v.dps = whereQ(1), svData(1<<n-1, n, int64(3+i))
			case 1:
				v.q, v.dps = whereQ(2), svData(2, n, int64(5+i))
			case 2:
				v.q, v.dps = otherQ, svData(1, n, int64(2+i))
			case 3:
				v.q, v.dps = whereQ(1), nil
			}
			v.q.proofs = i%8 == 5
			open = append(open, v)
			// created, and one of its uploads is made
			if !v.next() || len(v.dps) > 0 && !v.next() {
				return
			}
			if len(open) >= window && !finish() {
				return
			}
		}
		for len(open) > 0 {
			if !finish() {
				return
			}
		}
	})
	x.Obs("%d %d %v", n, window, lifo)
}

// c06Long decrypts every value of a range, in several orders, several times.
func c06Long(x *engine.X) {
	useToy(6)
	k, pub := libunlynx.GenKey()
	max := int64(6000)
	if x.Thorough() {
		max = 30000
	}
	order := x.Choose(4, "ascending, descending, from both ends, in steps")
	kind := x.Choose(3, "unsigned, signed, alternately")
	at := func(i int64) int64 {
		switch order {
		case 1:
			return max - 1 - i
		case 2:
			if i%2 == 1 {
				return max - 1 - i/2
			}
			return i / 2
		case 3:
			return i * 7 % max // 7 does not divide max
		}
		return i
	}
	for round := 0; round < 2; round++ {
		for i := int64(0); i < max; i++ {
			o := decOp{0, at(i)}
			if kind == 1 || kind == 2 && i%2 == 0 {
				o.kind = 1
				if (i/2)%2 == 0 {
					o.v = -o.v
				}
			}
			if bad := runDec(o, k, pub); bad != "" {
				x.Failf("round %d, value %d of the series (order %d, kind %d): %s", round, i, order, kind, bad)
				return
			}
		}
	}
	x.Obs("%d %d", order, kind)
}

// c10Huge: more elements than two bytes count.
func c10Huge(x *engine.X) {
	useToy(3)
	mkCtr = 0
	n := 65537
	if x.Thorough() {
		n = x.PickI("elements", 32769, 65535, 65536, 65537, 70001)
	}
	switch x.Choose(6, "object") {
	case 0:
		cv := mkCV(n)
		b, l, err := cv.ToBytes()
		d := libunlynx.CipherVector{}
		if need(x, err, "CipherVector.ToBytes of %d", n) && need(x, d.FromBytes(b, l), "CipherVector.FromBytes of %d", n) && !sameCV(cv, d) {
			x.Failf("vector of %d changed by ToBytes/FromBytes", n)
		}
	case 1:
		ps := make([]kyber.Point, n)
		for i := range ps {
			ps[i] = pt(int64(i % 1000))
		}
		b, err := libunlynx.AbstractPointsToBytes(ps)
		if need(x, err, "AbstractPointsToBytes") {
			qs, err := libunlynx.FromBytesToAbstractPoints(b)
			if need(x, err, "FromBytesToAbstractPoints") && !samePoints(ps, qs) {
				x.Failf("list of %d points changed by serialisation", n)
			}
		}
	case 2: // rows, some of them long
		cvs := []libunlynx.CipherVector{mkCV(2), mkCV(n), mkCV(3)}
		hugeArray(x, cvs, n)
	case 3: // many rows: slow
		if !x.Thorough() {
			n = 4097
		}
		cvs := make([]libunlynx.CipherVector, n)
		for i := range cvs {
			cvs[i] = mkCV(1 + i%2)
		}
		hugeArray(x, cvs, n)
	case 4:
		m := protocolsunlynx.DeterministicTaggingMessage{Data: mkCV(n)}
		b, err := m.ToBytes()
		var r protocolsunlynx.DeterministicTaggingMessage
		if need(x, err, "DeterministicTaggingMessage.ToBytes") && need(x, r.FromBytes(b), "DeterministicTaggingMessage.FromBytes") && !sameCV(m.Data, r.Data) {
			x.Failf("tagging message of %d changed", n)
		}
	case 5:
		f, g := libunlynx.FilteredResponse{GroupByEnc: mkCV(3), AggregatingAttributes: mkCV(n)}, libunlynx.FilteredResponse{}
		b, gl, al, err := f.ToBytes()
		if need(x, err, "FilteredResponse.ToBytes") && need(x, g.FromBytes(b, al, gl), "FilteredResponse.FromBytes") && !sameFR(f, g) {
			x.Failf("response of %d attributes changed", n)
		}
	}
	x.Obs("%d", n)
}

func hugeArray(x *engine.X, cvs []libunlynx.CipherVector, n int) {
	b, lb, err := libunlynx.ArrayCipherVectorToBytes(cvs)
	if !need(x, err, "ArrayCipherVectorToBytes") {
		return
	}
	d, err := libunlynx.FromBytesToArrayCipherVector(b, lb)
	if need(x, err, "FromBytesToArrayCipherVector of %d", n) && !sameCVs(cvs, d) {
		x.Failf("%d rows (%d elements) changed by serialisation", len(cvs), n)
	}
}

// c18Periodic repeats every short pattern of operations.
func c18Periodic(x *engine.X) {
	ops := []string{"E1", "A1", "A2", "pullDp", "S2", "Sre", "pullSh", "L12", "Lre", "pullLoc", "G12", "Gre", "pullGrN", "D2", "Dre", "pullDeN"}
	p, rounds := 3, 6
	if x.Thorough() {
		p, rounds = 4, 5
	}
	useToy(18)
	verifreset.Set("VPARALLELIZE", 2)
	c := &c18{x: x, s: libunlynxstore.NewStore(), agg: map[string]int64{}, loc: map[string][2]int64{}, gr: map[string][2]int64{}}
	c.k, c.pub = libunlynx.GenKey()
	var pat []string
	for i := 0; i < p; i++ {
		pat = append(pat, ops[x.Choose(len(ops), "op")])
	}
	for i := 0; i < p*rounds; i++ {
		op := pat[i%p]
		c.hist = append(c.hist, op)
		c.do(op)
		for j, f := range c.watch {
			if s := f(); s != c.was[j] {
				x.Failf("after %v: responses retrieved earlier changed from %s to %s", c.hist, c.was[j], s)
			}
		}
		if x.Failed() {
			return
		}
	}
	for _, op := range []string{"pullDp", "pullSh", "pullLoc", "pullGr", "pullDe"} {
		c.hist = append(c.hist, op)
		c.do(op)
	}
	x.Obs("%v", fmt.Sprint(pat))
}
