package checks

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C10"] = Info{Level: "model_checking", Rule: "every kind of object x every shape (component lengths, absent components, names, numbers of boundary size and sign) up to the bound, through the real encoder and decoder, on the toy group and on Ed25519; equality judged by the harness field by field.",
		Assume: []string{"component lengths 0..3 plus lengths around the work-split size; where tags are non-empty strings without the separator (they are always point encodings)"}}
	for _, sc := range []struct {
		n string
		f func(x *engine.X)
	}{{"cipher", c10Cipher}, {"points", c10Points}, {"array", c10Array}, {"resp", c10Resp}, {"dp", c10Dp}, {"keys", c10Keys}, {"tools", c10Tools}, {"proofs", c10Proofs}, {"msgs", c10Msgs}, {"conv", c10Conv}} {
		f := sc.f
		engine.Register(&engine.Scenario{Name: "c10-" + sc.n, Prop: "C10", Run: func(x *engine.X) { suiteChoice(x); f(x) }})
	}
}

func suiteChoice(x *engine.X) {
	mkCtr = 0
	if x.Bool("real") {
		useReal(3)
	} else {
		useToy(3)
	}
}

var mkCtr int64

// mkCV makes n different ciphertexts; the point at infinity and the base occur among them.
func mkCV(n int) libunlynx.CipherVector {
	s := libunlynx.SuiTe
	cv := make(libunlynx.CipherVector, n)
	for i := range cv {
		mkCtr++
		cv[i] = libunlynx.CipherText{K: s.Point().Mul(s.Scalar().SetInt64((mkCtr%5)*(mkCtr+1)), nil), C: s.Point().Mul(s.Scalar().SetInt64((mkCtr%3)*(3*mkCtr-1000)), nil)}
	}
	return cv
}

// mkNil is mkCV with -1 for an absent vector.
func mkNil(n int) libunlynx.CipherVector {
	if n < 0 {
		return nil
	}
	return mkCV(n)
}

func need(x *engine.X, err error, what string, a ...interface{}) bool {
	if err != nil {
		x.FailKey("error", "%s: unexpected error %v", fmt.Sprintf(what, a...), err)
		return false
	}
	return true
}

func c10Cipher(x *engine.X) {
	mkCtr = int64(x.Int(0, 15, "value"))
	c := mkCV(1)[0]
	b, err := c.ToBytes()
	if !need(x, err, "ToBytes") {
		return
	}
	if len(b) != libunlynx.CipherTextByteSize() {
		x.Failf("encoding of a ciphertext has %d bytes, CipherTextByteSize is %d", len(b), libunlynx.CipherTextByteSize())
	}
	d := libunlynx.CipherText{}
	if need(x, d.FromBytes(b), "FromBytes") && !sameCT(c, d) {
		x.Failf("ciphertext changed by ToBytes/FromBytes")
	}
	// decoding into an object that holds something else
	e := libunlynx.CipherText{K: c.C.Clone(), C: c.K.Clone()}
	if need(x, e.FromBytes(b), "FromBytes") && !sameCT(c, e) {
		x.Failf("FromBytes into a used ciphertext gives another value")
	}
	st, err := c.Serialize()
	if !need(x, err, "Serialize") {
		return
	}
	f := libunlynx.CipherText{}
	if need(x, f.Deserialize(st), "Deserialize") && !sameCT(c, f) {
		x.Failf("ciphertext changed by Serialize/Deserialize")
	}
	g, err := libunlynx.NewCipherTextFromBase64(st)
	if need(x, err, "NewCipherTextFromBase64") && !sameCT(c, *g) {
		x.Failf("ciphertext changed by Serialize/NewCipherTextFromBase64")
	}
	for _, n := range []int{-1, 0, 1, 2, 3, 100, 101, 205, 257, 301} {
		cv := mkNil(n)
		b, l, err := cv.ToBytes()
		if !need(x, err, "CipherVector.ToBytes of %d", n) {
			continue
		}
		if l != len(cv) {
			x.Failf("CipherVector.ToBytes of %d elements gives length %d", len(cv), l)
		}
		d := libunlynx.CipherVector{}
		if need(x, d.FromBytes(b, l), "CipherVector.FromBytes of %d", n) && !sameCV(cv, d) {
			x.Failf("vector of %d changed by ToBytes/FromBytes", n)
		}
		d2 := mkCV(4)
		if need(x, d2.FromBytes(b, l), "CipherVector.FromBytes of %d", n) && !sameCV(cv, d2) {
			x.Failf("vector of %d changed by ToBytes/FromBytes into a used vector", n)
		}
		x.Count("objects", 1)
	}
	x.Obs("%d", mkCtr)
}

func c10Points(x *engine.X) {
	s := libunlynx.SuiTe
	v := x.Pick64("v", 0, 1, 2, -1, 3, 1<<20, -(1 << 40), math.MaxInt64, math.MinInt64)
	p := s.Point().Mul(s.Scalar().SetInt64(v), nil)
	sp, err := libunlynx.SerializePoint(p)
	if need(x, err, "SerializePoint") {
		q, err := libunlynx.DeserializePoint(sp)
		if need(x, err, "DeserializePoint") && !q.Equal(p) {
			x.Failf("point %d changed by serialisation", v)
		}
	}
	sc := s.Scalar().SetInt64(v)
	ss, err := libunlynx.SerializeScalar(sc)
	if need(x, err, "SerializeScalar") {
		q, err := libunlynx.DeserializeScalar(ss)
		if need(x, err, "DeserializeScalar") && !q.Equal(sc) {
			x.Failf("scalar %d changed by serialisation", v)
		}
	}
	se, err := libunlynx.SerializeElement(p)
	if need(x, err, "SerializeElement") && se != sp {
		x.Failf("SerializeElement and SerializePoint differ")
	}
	n := x.PickI("len", 0, 1, 2, 3, 5, 99, 100, 101, 130, 257, 301)
	ps := make([]kyber.Point, n)
	for i := range ps {
		ps[i] = s.Point().Mul(s.Scalar().SetInt64(v+int64(i)), nil)
	}
	b, err := libunlynx.AbstractPointsToBytes(ps)
	if !need(x, err, "AbstractPointsToBytes") {
		return
	}
	qs, err := libunlynx.FromBytesToAbstractPoints(b)
	if !need(x, err, "FromBytesToAbstractPoints") {
		return
	}
	if !samePoints(ps, qs) {
		x.Failf("list of %d points changed by serialisation", n)
	}
	x.Obs("%d-%d", v, n)
}

func samePoints(a, b []kyber.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) || a[i] != nil && !a[i].Equal(b[i]) {
			return false
		}
	}
	return true
}

func sameCVs(a, b []libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameCV(a[i], b[i]) {
			return false
		}
	}
	return true
}

// shapes of a list of vectors
func mkShapes(x *engine.X) ([]libunlynx.CipherVector, []int) {
	var ls []int
	switch k := x.Int(0, 7, "rows"); k {
	case 6: // more rows than a byte counts
		for i := 0; i < 301; i++ {
			ls = append(ls, 1+i/256)
		}
	case 7: // a row longer than a byte counts
		ls = []int{257, 1}
	case 4: // many rows of alternating lengths
		for i := 0; i < 103; i++ {
			ls = append(ls, i%3)
		}
	case 5: // a long row between short ones
		ls = []int{1, 101, 0, 2}
	default:
		for i := 0; i < k; i++ {
			ls = append(ls, x.Int(-1, 3, "row"))
		}
	}
	cvs := make([]libunlynx.CipherVector, len(ls))
	for i, l := range ls {
		cvs[i] = mkNil(l)
	}
	return cvs, ls
}

func c10Array(x *engine.X) {
	cvs, ls := mkShapes(x)
	b, lb, err := libunlynx.ArrayCipherVectorToBytes(cvs)
	if !need(x, err, "ArrayCipherVectorToBytes") {
		return
	}
	d, err := libunlynx.FromBytesToArrayCipherVector(b, lb)
	if need(x, err, "FromBytesToArrayCipherVector of %v", ls) && !sameCVs(cvs, d) {
		x.Failf("rows of lengths %v changed by serialisation", ls)
	}
	sm := protocolsunlynx.ShufflingMessage{Data: cvs}
	b, lb, err = sm.ToBytes()
	if need(x, err, "ShufflingMessage.ToBytes") {
		var r protocolsunlynx.ShufflingMessage
		if need(x, r.FromBytes(b, lb), "ShufflingMessage.FromBytes") && !sameCVs(cvs, r.Data) {
			x.Failf("ShufflingMessage with rows %v changed by serialisation", ls)
		}
	}
	pd := protocolsunlynx.ShufflingPlusDDTMessage{Data: cvs}
	b, lb, err = pd.ToBytes()
	if need(x, err, "ShufflingPlusDDTMessage.ToBytes") {
		key := mkCV(1)[0].K
		kb, _ := libunlynx.AbstractPointsToBytes([]kyber.Point{key})
		var r protocolsunlynx.ShufflingPlusDDTMessage
		if need(x, r.FromBytes(b, kb, lb), "ShufflingPlusDDTMessage.FromBytes") && !(sameCVs(cvs, r.Data) && r.ShuffKey.Equal(key)) {
			x.Failf("ShufflingPlusDDTMessage with rows %v changed by serialisation", ls)
		}
	}
	// shuffle precomputation
	pre := make([]libunlynxshuffle.CipherVectorScalar, len(cvs))
	for i := range cvs {
		pre[i].CipherV = cvs[i]
		for j := 0; j < len(cvs[i])+i%2; j++ {
			pre[i].S = append(pre[i].S, libunlynx.SuiTe.Scalar().SetInt64(int64(j*i)-3))
		}
	}
	e, err := libunlynxshuffle.EncodeCipherVectorScalar(pre)
	if need(x, err, "EncodeCipherVectorScalar") {
		got, err := libunlynxshuffle.DecodeCipherVectorScalar(e)
		if need(x, err, "DecodeCipherVectorScalar") && !sameCVS(pre, got) {
			x.Failf("precomputed randomness of shape %v changed by serialisation", ls)
		}
	}
	// and through a gob file
	if len(ls) < 3 || len(ls) > 10 {
		dir, err := os.MkdirTemp("", "c10")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "g.gob")
		if need(x, libunlynxtools.WriteToGobFile(f, e), "WriteToGobFile") {
			var e2 []libunlynxshuffle.CipherVectorScalarBytes
			if need(x, libunlynxtools.ReadFromGobFile(f, &e2), "ReadFromGobFile") {
				got, err := libunlynxshuffle.DecodeCipherVectorScalar(e2)
				if need(x, err, "DecodeCipherVectorScalar") && !sameCVS(pre, got) {
					x.Failf("precomputed randomness of shape %v changed by a gob file", ls)
				}
			}
		}
	}
	x.Obs("%v", ls)
}

func sameCVS(a, b []libunlynxshuffle.CipherVectorScalar) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameCV(a[i].CipherV, b[i].CipherV) || len(a[i].S) != len(b[i].S) {
			return false
		}
		for j := range a[i].S {
			if !a[i].S[j].Equal(b[i].S[j]) {
				return false
			}
		}
	}
	return true
}

func samePR(a, b libunlynx.ProcessResponse) bool {
	return sameCV(a.WhereEnc, b.WhereEnc) && sameCV(a.GroupByEnc, b.GroupByEnc) && sameCV(a.AggregatingAttributes, b.AggregatingAttributes)
}

func sameFR(a, b libunlynx.FilteredResponse) bool {
	return sameCV(a.GroupByEnc, b.GroupByEnc) && sameCV(a.AggregatingAttributes, b.AggregatingAttributes)
}

func c10Resp(x *engine.X) {
	ga := x.Int(-1, 3, "group")
	aa := x.Int(-1, 3, "aggr")
	wa := x.Int(-1, 3, "where")
	if ga == 3 {
		ga = 101
	}
	if aa == 3 {
		aa = 102
	}
	g, a, w := mkNil(ga), mkNil(aa), mkNil(wa)
	tag := libunlynx.GroupingKey([]string{"", "a", "0123456789abcdef", "/-/", "1,2,"}[x.Choose(5, "tag")])
	fr := libunlynx.FilteredResponse{GroupByEnc: g, AggregatingAttributes: a}
	b, gl, al, err := fr.ToBytes()
	if need(x, err, "FilteredResponse.ToBytes") {
		var d libunlynx.FilteredResponse
		if need(x, d.FromBytes(b, al, gl), "FilteredResponse.FromBytes") && !sameFR(fr, d) {
			x.Failf("FilteredResponse(%d,%d) changed by serialisation", ga, aa)
		}
	}
	frd := libunlynx.FilteredResponseDet{DetTagGroupBy: tag, Fr: fr}
	b, gl, al, tl, err := frd.ToBytes()
	if need(x, err, "FilteredResponseDet.ToBytes") {
		var d libunlynx.FilteredResponseDet
		if need(x, d.FromBytes(b, gl, al, tl), "FilteredResponseDet.FromBytes") && !(sameFR(fr, d.Fr) && d.DetTagGroupBy == tag) {
			x.Failf("FilteredResponseDet(%d,%d,%q) changed by serialisation", ga, aa, tag)
		}
	}
	pr := libunlynx.ProcessResponse{GroupByEnc: g, AggregatingAttributes: a, WhereEnc: w}
	b, gl, al, wl, err := pr.ToBytes()
	if need(x, err, "ProcessResponse.ToBytes") {
		var d libunlynx.ProcessResponse
		if need(x, d.FromBytes(b, gl, al, wl), "ProcessResponse.FromBytes") && !samePR(pr, d) {
			x.Failf("ProcessResponse(%d,%d,%d) changed by serialisation", ga, aa, wa)
		}
	}
	prd := libunlynx.ProcessResponseDet{PR: pr, DetTagGroupBy: tag}
	for i, n := 0, x.Int(0, 3, "tags"); i < n; i++ {
		prd.DetTagWhere = append(prd.DetTagWhere, libunlynx.GroupingKey([]string{"x", "feed", "0,-1,"}[(i+n)%3]))
	}
	b, gl, al, wl, tl, twl, err := prd.ToBytes()
	if need(x, err, "ProcessResponseDet.ToBytes") {
		var d libunlynx.ProcessResponseDet
		if need(x, d.FromBytes(b, gl, al, wl, tl, twl), "ProcessResponseDet.FromBytes") {
			ok := samePR(pr, d.PR) && d.DetTagGroupBy == tag && len(d.DetTagWhere) == len(prd.DetTagWhere)
			for i := 0; ok && i < len(d.DetTagWhere); i++ {
				ok = d.DetTagWhere[i] == prd.DetTagWhere[i]
			}
			if !ok {
				x.Failf("ProcessResponseDet(%d,%d,%d,%q,%q) changed by serialisation: tags %q %q", ga, aa, wa, tag, prd.DetTagWhere, d.DetTagGroupBy, d.DetTagWhere)
			}
		}
	}
	x.Obs("%d %d %d %q %d", ga, aa, wa, tag, len(prd.DetTagWhere))
}

func mkMap(n int, pre string) map[string]int64 {
	if n < 0 {
		return nil
	}
	m := map[string]int64{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("%s%d", pre, i)] = []int64{0, -7, 12}[i%3] + int64(i/3)
	}
	return m
}

func sameMapI(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

func c10Dp(x *engine.X) {
	s := libunlynx.SuiTe
	k := s.Scalar().SetInt64(1234567)
	pub := s.Point().Mul(k, nil)
	n := func(l string) int { return x.Int(-1, 2, l) }
	dp := libunlynx.DpClearResponse{}
	dp.WhereClear = mkMap(n("wc"), "w")
	dp.WhereEnc = mkMap(n("we"), "w")
	dp.GroupByClear = mkMap(n("gc"), "g")
	dp.GroupByEnc = mkMap(n("ge"), "g")
	dp.AggregatingAttributesClear = mkMap(n("ac"), "s")
	dp.AggregatingAttributesEnc = mkMap(n("ae"), "s")
	count := x.Bool("count")
	snd, err := libunlynx.EncryptDpClearResponse(dp, pub, count)
	if !need(x, err, "EncryptDpClearResponse") {
		return
	}
	var d libunlynx.DpResponse
	if !need(x, d.FromDpResponseToSend(snd), "FromDpResponseToSend") {
		return
	}
	if !sameMapI(dp.WhereClear, d.WhereClear) || !sameMapI(dp.GroupByClear, d.GroupByClear) || !sameMapI(dp.AggregatingAttributesClear, d.AggregatingAttributesClear) {
		x.Failf("clear attributes changed: %+v", dp)
	}
	chk := func(what string, w map[string]int64, got map[string]libunlynx.CipherText, sent map[string][]byte) {
		m := map[string]int64{}
		for k, v := range w {
			m[k] = v
		}
		if what == "aggregating" && count {
			m["count"] = 1
		}
		if len(m) != len(got) || len(m) != len(sent) {
			x.Failf("%s: %d encrypted attributes sent, %d decoded, %d given", what, len(sent), len(got), len(m))
			return
		}
		for n, v := range m {
			if !encodes(k, got[n], v) {
				x.Failf("%s attribute %s decodes to another value than %d", what, n, v)
			}
		}
		back, err := libunlynx.MapBytesToMapCipherText(sent)
		if !need(x, err, "MapBytesToMapCipherText") {
			return
		}
		if len(back) != len(m) {
			x.Failf("MapBytesToMapCipherText gives %d of %d", len(back), len(m))
		}
		for n, c := range back {
			if !sameCT(c, got[n]) {
				x.Failf("MapBytesToMapCipherText and FromDpResponseToSend differ for %s", n)
			}
		}
	}
	chk("where", dp.WhereEnc, d.WhereEnc, snd.WhereEnc)
	chk("group", dp.GroupByEnc, d.GroupByEnc, snd.GroupByEnc)
	chk("aggregating", dp.AggregatingAttributesEnc, d.AggregatingAttributesEnc, snd.AggregatingAttributesEnc)
	x.Obs("%v%v", dp, count)
}

var keyNums = []int64{0, 1, -1, 7, 10, -12, 99, 123456789, -1234567890123, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32}

func mkNums(x *engine.X, max int) []int64 {
	n := x.Int(0, max, "n")
	v := make([]int64, n)
	for i := range v {
		v[i] = keyNums[x.Choose(len(keyNums), "num")]
	}
	return v
}

func c10Keys(x *engine.X) {
	v := mkNums(x, 3)
	gk := libunlynx.Key(v)
	d, err := libunlynx.UnKey(gk)
	if need(x, err, "UnKey(%q)", gk) && !eqInts(v, d) {
		x.Failf("Key(%v)=%q, UnKey gives %v", v, gk, d)
	}
	st := libunlynxtools.Int64ArrayToString(v)
	if r := libunlynxtools.StringToInt64Array(st); !eqInts(v, r) {
		x.Failf("Int64ArrayToString(%v)=%q, read back as %v", v, st, r)
	}
	for _, start := range []int{0, 1, 9} {
		m := libunlynxtools.ConvertDataToMap(v, "s", start)
		if r := libunlynxtools.ConvertMapToData(m, "s", start); !eqInts(v, r) {
			x.Failf("ConvertDataToMap(%v) start %d = %v, converted back to %v", v, start, m, r)
		}
	}
	x.Obs("%s", gk)
}

func c10Tools(x *engine.X) {
	nums := []int{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, math.MaxInt32, 1 << 31, math.MaxUint32}
	n := x.Int(0, 3, "n")
	v := make([]int, n)
	for i := range v {
		v[i] = nums[x.Choose(len(nums), "num")]
	}
	b := libunlynxtools.UnsafeCastIntsToBytes(v)
	r := libunlynxtools.UnsafeCastBytesToInts(b)
	if len(r) != len(v) || len(v) > 0 && !reflect.DeepEqual(r, v) {
		x.Failf("ints %v changed by casting: %v", v, r)
	}
	// gob file of a generic object
	dir, err := os.MkdirTemp("", "c10")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "x.gob")
	if n < 2 {
		if need(x, libunlynxtools.WriteToGobFile(f, []int{7, 7, 7, 7, 7, 7, 7}), "WriteToGobFile") &&
			need(x, libunlynxtools.WriteToGobFile(f, append([]int{-1}, v...)), "WriteToGobFile over an older file") {
			var got []int
			if need(x, libunlynxtools.ReadFromGobFile(f, &got), "ReadFromGobFile") && !reflect.DeepEqual(got, append([]int{-1}, v...)) {
				x.Failf("gob file of %v read back as %v", v, got)
			}
		}
		var got []int
		if libunlynxtools.ReadFromGobFile(filepath.Join(dir, "missing"), &got) == nil {
			x.Failf("reading a missing file reports no error")
		}
	}
	x.Obs("%v", v)
}

func c10Proofs(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 3)
	s := libunlynx.SuiTe
	sizes := []int{0, 1, 2, 3, 4, 7}
	switch x.Choose(3, "kind") {
	case 0:
		n := sizes[x.Choose(len(sizes), "list")]
		l := libunlynxaggr.PublishedAggregationListProof{}
		for i := 0; i < n; i++ {
			var data libunlynx.CipherVector
			if i < 2 {
				data = mkNil(x.Int(-1, 2, "data"))
			} else {
				data = mkCV(i % 4)
			}
			p := libunlynxaggr.PublishedAggregationProof{Data: data, AggregationResult: mkCV(1)[0]}
			pb, err := p.ToBytes()
			if need(x, err, "PublishedAggregationProof.ToBytes") {
				var d libunlynxaggr.PublishedAggregationProof
				if need(x, d.FromBytes(pb), "PublishedAggregationProof.FromBytes") && !(sameCV(d.Data, p.Data) && sameCT(d.AggregationResult, p.AggregationResult)) {
					x.Failf("aggregation proof of %d ciphertexts changed by serialisation", len(data))
				}
			}
			l.List = append(l.List, p)
		}
		lb, err := l.ToBytes()
		if !need(x, err, "PublishedAggregationListProof.ToBytes") {
			return
		}
		var d libunlynxaggr.PublishedAggregationListProof
		if need(x, d.FromBytes(lb), "PublishedAggregationListProof.FromBytes") {
			ok := len(d.List) == n
			for i := 0; ok && i < n; i++ {
				ok = sameCV(d.List[i].Data, l.List[i].Data) && sameCT(d.List[i].AggregationResult, l.List[i].AggregationResult)
			}
			if !ok {
				x.Failf("list of %d aggregation proofs changed by serialisation", n)
			}
		}
		x.Obs("a%d", n)
	case 1:
		n := sizes[x.Choose(len(sizes), "list")]
		pl := x.Int(-1, 2, "proof")
		l := libunlynxkeyswitch.PublishedKSListProof{}
		for i := 0; i < n; i++ {
			cv := mkCV(3)
			p := libunlynxkeyswitch.PublishedKSProof{K: cv[0].K, ViB: cv[0].C, Ks2: cv[1].K, RbNeg: cv[1].C, Q: cv[2].C}
			if pl >= 0 {
				p.Proof = bytes.Repeat([]byte{byte(i), 0xff, 0}, pl*(i+1))
			}
			pb, err := p.ToBytes()
			if need(x, err, "PublishedKSProof.ToBytes") {
				var d libunlynxkeyswitch.PublishedKSProof
				if need(x, d.FromBytes(pb), "PublishedKSProof.FromBytes") && !sameKS(p, d) {
					x.Failf("key-switch proof changed by serialisation")
				}
			}
			l.List = append(l.List, p)
		}
		lb, err := l.ToBytes()
		if !need(x, err, "PublishedKSListProof.ToBytes") {
			return
		}
		var d libunlynxkeyswitch.PublishedKSListProof
		if need(x, d.FromBytes(lb), "PublishedKSListProof.FromBytes") {
			ok := len(d.List) == n
			for i := 0; ok && i < n; i++ {
				ok = sameKS(d.List[i], l.List[i])
			}
			if !ok {
				x.Failf("list of %d key-switch proofs changed by serialisation", n)
			}
		}
		x.Obs("k%d %d", n, pl)
	case 2:
		cvs, ls := mkShapes(x)
		cvs2 := []libunlynx.CipherVector{}
		for _, l := range ls {
			cvs2 = append(cvs2, mkNil(l))
		}
		p := libunlynxshuffle.PublishedShufflingProof{OriginalList: cvs, ShuffledList: cvs2, G: s.Point().Base(), H: mkCV(1)[0].C, HashProof: bytes.Repeat([]byte{1, 2}, len(ls))}
		pb, err := p.ToBytes()
		if !need(x, err, "PublishedShufflingProof.ToBytes") {
			return
		}
		var d libunlynxshuffle.PublishedShufflingProof
		if need(x, d.FromBytes(pb), "PublishedShufflingProof.FromBytes") && !(sameCVs(p.OriginalList, d.OriginalList) && sameCVs(p.ShuffledList, d.ShuffledList) && p.G.Equal(d.G) && p.H.Equal(d.H) && bytes.Equal(p.HashProof, d.HashProof)) {
			x.Failf("shuffle proof with rows %v changed by serialisation", ls)
		}
		x.Obs("s%v", ls)
	}
}

func sameKS(a, b libunlynxkeyswitch.PublishedKSProof) bool {
	return bytes.Equal(a.Proof, b.Proof) && samePoints([]kyber.Point{a.K, a.ViB, a.Ks2, a.RbNeg, a.Q}, []kyber.Point{b.K, b.ViB, b.Ks2, b.RbNeg, b.Q})
}

func c10Msgs(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 3)
	if x.Bool("tagging") {
		n := x.Int(0, 10, "len")
		m := protocolsunlynx.DeterministicTaggingMessage{Data: mkCV(n)}
		b, err := m.ToBytes()
		if need(x, err, "DeterministicTaggingMessage.ToBytes") {
			var d protocolsunlynx.DeterministicTaggingMessage
			if need(x, d.FromBytes(b), "DeterministicTaggingMessage.FromBytes") && !sameCV(m.Data, d.Data) {
				x.Failf("DeterministicTaggingMessage of %d changed by serialisation", n)
			}
		}
		x.Obs("t%d", n)
		return
	}
	n := x.Int(0, 7, "responses")
	g, a, tl := x.Int(0, 2, "group"), x.Int(0, 2, "aggr"), x.Int(0, 2, "tag")
	if g+a+tl == 0 && n > 0 {
		return // an empty response has no encoding of its own: its number cannot be transmitted and carries no data
	}
	m := protocolsunlynx.ChildAggregatedDataMessage{}
	for i := 0; i < n; i++ {
		m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprintf("%02d", i)[2-tl:]), Fr: libunlynx.FilteredResponse{GroupByEnc: mkCV(g), AggregatingAttributes: mkCV(a)}})
	}
	b, gl, al, dl, err := m.ToBytes()
	if !need(x, err, "ChildAggregatedDataMessage.ToBytes") {
		return
	}
	var d protocolsunlynx.ChildAggregatedDataMessage
	if need(x, d.FromBytes(b, gl, al, dl), "ChildAggregatedDataMessage.FromBytes") {
		ok := len(d.ChildData) == n
		for i := 0; ok && i < n; i++ {
			ok = sameFR(d.ChildData[i].Fr, m.ChildData[i].Fr) && d.ChildData[i].DetTagGroupBy == m.ChildData[i].DetTagGroupBy
		}
		if !ok {
			x.Failf("ChildAggregatedDataMessage of %d (%d,%d,%d) changed by serialisation", n, g, a, tl)
		}
	}
	x.Obs("%d %d %d %d", n, g, a, tl)
}

// c10Conv: the conversions the protocols use between responses and vectors.
func c10Conv(x *engine.X) {
	max := 2
	if x.Thorough() {
		max = 3
	}
	n := x.Int(0, max, "n")
	var prs []libunlynx.ProcessResponse
	var frs []libunlynx.FilteredResponse
	desc := ""
	for i := 0; i < n; i++ {
		g, w, a := x.Int(0, 2, "g"), x.Int(0, 2, "w"), x.Int(0, 2, "a")
		prs = append(prs, libunlynx.ProcessResponse{GroupByEnc: mkCV(g), WhereEnc: mkCV(w), AggregatingAttributes: mkCV(a)})
		frs = append(frs, libunlynx.FilteredResponse{GroupByEnc: prs[i].GroupByEnc, AggregatingAttributes: prs[i].AggregatingAttributes})
		desc += fmt.Sprintf("%d%d%d ", g, w, a)
	}
	cv, l := protocolsunlynx.FilteredResponseToCipherVector(frs)
	back := protocolsunlynx.CipherVectorToFilteredResponse(cv, l)
	ok := len(back) == n
	for i := 0; ok && i < n; i++ {
		ok = sameFR(back[i], frs[i])
	}
	if !ok {
		x.Failf("filtered responses %s changed by conversion", desc)
	}
	mx, ml := protocolsunlynx.ProcessResponseToMatrixCipherText(prs)
	pb := protocolsunlynx.MatrixCipherTextToProcessResponse(mx, ml)
	ok = len(pb) == n || n == 1 && len(pb) == 2 // a single row gets a neutral companion
	for i := 0; ok && i < n; i++ {
		ok = samePR(pb[i], prs[i])
	}
	if ok && n == 1 {
		k := libunlynx.SuiTe.Scalar().SetInt64(77)
		ok = sameCV(pb[1].GroupByEnc, prs[0].GroupByEnc) && sameCV(pb[1].WhereEnc, prs[0].WhereEnc) && len(pb[1].AggregatingAttributes) == len(prs[0].AggregatingAttributes)
		for _, c := range pb[1].AggregatingAttributes {
			ok = ok && encodes(k, c, 0)
		}
	}
	if !ok {
		x.Failf("process responses %s changed by conversion", desc)
	}
	// tagged vectors back to responses
	tv := protocolsunlynx.ProcessResponseToCipherVector(prs)
	det := make(libunlynx.DeterministCipherVector, len(tv))
	for i := range tv {
		det[i].Point = tv[i].C
	}
	prd := protocolsunlynx.DeterCipherVectorToProcessResponseDet(det, prs)
	ok = len(prd) == n
	for i := 0; ok && i < n; i++ {
		ok = samePR(prd[i].PR, prs[i]) && len(prd[i].DetTagWhere) == len(prs[i].WhereEnc)
		for j := range prd[i].DetTagWhere {
			d := libunlynx.DeterministCipherText{Point: prs[i].WhereEnc[j].C}
			ok = ok && string(prd[i].DetTagWhere[j]) == d.String()
		}
		gd := make(libunlynx.DeterministCipherVector, len(prs[i].GroupByEnc))
		for j := range gd {
			gd[j].Point = prs[i].GroupByEnc[j].C
		}
		ok = ok && prd[i].DetTagGroupBy == gd.Key()
	}
	if !ok {
		x.Failf("tags of responses %s do not belong to their responses", desc)
	}
	if n > 0 {
		ad := protocolsunlynx.AdaptCipherTextArray(prs[0].AggregatingAttributes)
		ok = len(ad) == len(prs[0].AggregatingAttributes)
		for i := 0; ok && i < len(ad); i++ {
			ok = len(ad[i]) == 1 && sameCT(ad[i][0], prs[0].AggregatingAttributes[i])
		}
		if !ok {
			x.Failf("AdaptCipherTextArray changed the data")
		}
		sd, err := protocolsunlynx.RetrieveSimpleDataFromMap(map[libunlynx.GroupingKey]libunlynx.FilteredResponse{protocolsunlynx.EMPTYKEY: frs[0]})
		if need(x, err, "RetrieveSimpleDataFromMap") && !sameCV(sd, frs[0].AggregatingAttributes) {
			x.Failf("RetrieveSimpleDataFromMap changed the data")
		}
	}
	x.Obs("%s", desc)
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
