package checks

import (
	"math"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Values that look alike when they are written without separators, signs or
// high bits.

func init() {
	engine.Register(&engine.Scenario{Name: "c01-collide", Prop: "C01", Run: c01Collide})
	engine.Register(&engine.Scenario{Name: "c18-keys", Prop: "C18", Run: c18Keys})
	engine.Register(&engine.Scenario{Name: "c05-big", Prop: "C05", Run: c05Big})
}

var alike = [][2][]int64{
	{{1, 23}, {12, 3}}, {{0, 10}, {1, 0}}, {{1, 11}, {11, 1}}, {{100, 0}, {10, 0}}, {{1, 1}, {1, 2}}, {{257, 1}, {1, 257}}, {{256, 0}, {0, 0}}, {{0, 1}, {1, 0}},
}

// c01Collide: rows whose groups or where values are alike.
func c01Collide(x *engine.X) {
	useToy(1)
	p := alike[x.Choose(len(alike), "pair")]
	where := x.Bool("where values")
	enc := []int{0, 3, 1}[x.Choose(3, "clear, encrypted, both")]
	spread := x.Choose(3, "one upload, two uploads, two servers")
	same := []int64{4, 5}
	q := svQuery{sum: names("s", 1), groupBy: names("g", 2), where: []svWhere{{"w1", p[0][0]}, {"w2", p[0][1]}}}
	if !where {
		q.where = []svWhere{{"w1", 4}, {"w2", 5}}
	}
	q.pred, q.eval = eqPred(2)
	var rows []libunlynx.DpClearResponse
	for i, v := range p {
		g, w := v, same
		if where {
			g, w = same, v
		}
		a := int64(7 + 100*i)
		rows = append(rows, svRow(g, enc, w, enc, []int64{a}, 1), svRow(g, enc, w, enc, []int64{2 * a}, 1))
	}
	dps := []svDP{{server: 0, rep: 1, rows: rows}}
	if spread > 0 {
		dps = []svDP{{server: 0, rep: 1, rows: rows[:2]}, {server: spread - 1, rep: 1, rows: rows[1:]}}
	}
	c01Do(x, 2, x.Choose(2, "querier's server"), q, dps, false)
	x.Obs("%v %v %d %d", p, where, enc, spread)
}

// c18Keys: two responses in the clear.
func c18Keys(x *engine.X) {
	useToy(18)
	vs := []int64{0, 1, 11, -1, 1 << 32, 1<<32 + 1, -1 << 40, math.MaxInt64, math.MinInt64}
	k, _ := libunlynx.GenKey()
	n := x.Int(1, 2, "attributes")
	vec := func(what string) (r []int64) {
		for i := 0; i < n; i++ {
			if n > 1 {
				r = append(r, x.Pick64(what, vs[:6]...))
			} else {
				r = append(r, x.Pick64(what, vs...))
			}
		}
		return
	}
	a, b := vec("first"), vec("second")
	inWhere := x.Bool("where")
	s := libunlynxstore.NewStore()
	same := true
	for i, v := range [][]int64{a, b} {
		same = same && a[len(a)-1] == b[len(b)-1] && a[0] == b[0]
		m, one := map[string]int64{}, map[string]int64{}
		var ns []string
		for j, e := range v {
			ns = append(ns, sprintf("x%d", j))
			m[ns[j]] = e
			one[ns[j]] = 4
		}
		var w []libunlynx.WhereQueryAttribute
		for _, e := range ns {
			w = append(w, libunlynx.WhereQueryAttribute{Name: e})
		}
		r := libunlynx.DpResponse{GroupByClear: m, WhereClear: one, AggregatingAttributesClear: map[string]int64{"s": int64(10 + i)}}
		if inWhere {
			r.GroupByClear, r.WhereClear = one, m
		}
		s.InsertDpResponse(r, false, ns, []string{"s"}, w)
	}
	rows := s.PullDpResponses()
	want := [][]int64{a, b}
	sums := []int64{10, 11}
	if same {
		want, sums = want[:1], []int64{21}
	}
	if len(rows) != len(want) {
		x.Failf("responses %v and %v (where: %v) are delivered as %d rows", a, b, inWhere, len(rows))
		return
	}
	found := make([]bool, len(rows))
	for _, r := range rows {
		cv := r.GroupByEnc
		if inWhere {
			cv = r.WhereEnc
		}
		for i, v := range want {
			ok := len(cv) == len(v) && len(r.AggregatingAttributes) == 1 && encodes(k, r.AggregatingAttributes[0], sums[i])
			for j := range v {
				ok = ok && encodes(k, cv[j], v[j])
			}
			found[i] = found[i] || ok
		}
	}
	for i := range found {
		if !found[i] {
			x.Failf("responses %v and %v (where: %v): no row for %v with %d", a, b, inWhere, want[i], sums[i])
		}
	}
	x.Obs("%v %v %v", a, b, inWhere)
}

// c05Big: the plaintext of an encryption of a number of any size.
func c05Big(x *engine.X) {
	suiteSmall(x)
	k, pub := libunlynx.GenKey()
	v := x.Pick64("value", 0, 1, -1, 255, 256, -256, 32767, 32768, -32769, math.MaxInt32, 1<<31, 1<<32, 1<<32+5, math.MinInt32, -1<<31-1, -1<<32, 1<<40, 1<<53+1, -1<<53-1, math.MaxInt64, math.MinInt64, math.MinInt64+1)
	verifreset.Set("VPARALLELIZE", 2)
	vec := []int64{1, v, 2, v, -1}
	check := func(what string, c libunlynx.CipherText, v int64) {
		if !encodes(k, c, v) {
			x.Failf("%s of %d is not an encryption of it", what, v)
		}
	}
	if !libunlynx.IntToPoint(v).Equal(pt(v)) {
		x.Failf("IntToPoint(%d) is another point", v)
	}
	check("EncryptInt", *libunlynx.EncryptInt(pub, v), v)
	c, r := libunlynx.EncryptIntGetR(pub, v)
	check("EncryptIntGetR", *c, v)
	if !c.K.Equal(libunlynx.SuiTe.Point().Mul(r, nil)) {
		x.Failf("EncryptIntGetR of %d gives another randomness", v)
	}
	check("EncryptScalar", *libunlynx.EncryptScalar(pub, sc(v)), v)
	check("IntToCipherText", libunlynx.IntToCipherText(v), v)
	cv := libunlynx.EncryptIntVector(pub, vec)
	cr, rs := libunlynx.EncryptIntVectorGetRs(pub, vec)
	ca := libunlynx.IntArrayToCipherVector(vec)
	if len(*cv) != len(vec) || len(*cr) != len(vec) || len(rs) != len(vec) || len(ca) != len(vec) {
		x.Failf("vectors of other lengths")
		return
	}
	for i, e := range vec {
		check("EncryptIntVector", (*cv)[i], e)
		check("EncryptIntVectorGetRs", (*cr)[i], e)
		check("IntArrayToCipherVector", ca[i], e)
		if !(*cr)[i].K.Equal(libunlynx.SuiTe.Point().Mul(rs[i], nil)) {
			x.Failf("EncryptIntVectorGetRs gives another randomness for element %d", i)
		}
	}
	var p libunlynx.CipherText
	p.MulCipherTextbyScalar(*libunlynx.EncryptInt(pub, 1), sc(v))
	check("a product", p, v)
	for _, e := range []int64{0, 1, 30} {
		if v < math.MinInt64+e {
			continue
		}
		var d libunlynx.CipherText
		d.Sub(*libunlynx.EncryptInt(pub, v), *libunlynx.EncryptInt(pub, v-e))
		if got := libunlynx.DecryptInt(k, d); got != e {
			x.Failf("encryptions of %d and of %d differ by %d", v, v-e, got)
		}
	}
	x.Obs("%d", v)
}
