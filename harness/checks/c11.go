package checks

import (
	"bytes"
	"encoding/base64"
	"math"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	Props["C11"] = Info{Level: "model_checking", Rule: "every truncation, every extension up to one element, every single-byte corruption (boundary byte values quick, all 255 thorough) and every declared length around the true one, for every decoder that reports errors; an execution fails on a crash and on an accepted encoding that re-encodes differently.",
		Assume: []string{"an element may be changed to the curve library's own canonical form of the given bytes (kyber accepts non-canonical encodings)"}}
	engine.Register(&engine.Scenario{Name: "c11-bytes", Prop: "C11", Run: func(x *engine.X) { suiteChoice(x); c11Bytes(x) }})
	engine.Register(&engine.Scenario{Name: "c11-base64", Prop: "C11", Run: func(x *engine.X) { suiteChoice(x); c11Base64(x) }})
	engine.Register(&engine.Scenario{Name: "c11-lengths", Prop: "C11", Run: func(x *engine.X) { suiteChoice(x); c11Lengths(x) }})
	engine.Register(&engine.Scenario{Name: "c11-proofs", Prop: "C11", Run: func(x *engine.X) { suiteChoice(x); c11Proofs(x) }})
}

// canonical replaces every point encoding by the library's own canonical form; ok is false if one is invalid.
func canonical(b []byte) (out []byte, ok bool) {
	l := libunlynx.SuiTe.PointLen()
	if len(b)%l != 0 {
		return nil, false
	}
	for i := 0; i < len(b); i += l {
		p := libunlynx.SuiTe.Point()
		if p.UnmarshalBinary(b[i:i+l]) != nil {
			return nil, false
		}
		e, err := p.MarshalBinary()
		if err != nil {
			return nil, false
		}
		out = append(out, e...)
	}
	return out, true
}

// byteVals are the values an enumerated byte may take.
func byteVals(x *engine.X, old byte) []byte {
	if x.Thorough() {
		var r []byte
		for i := 0; i < 256; i++ {
			if byte(i) != old {
				r = append(r, byte(i))
			}
		}
		return r
	}
	return []byte{old ^ 1, old ^ 0x80, old + 1, ^old}
}

// corrupt enumerates corruptions of b; all of one kind in one execution would
// hide the failing one, so each is one execution.
func corrupt(x *engine.X, b []byte, unit int) []byte {
	switch x.Choose(4, "kind") {
	case 0:
		return append([]byte{}, b[:x.Int(0, len(b), "truncate")]...)
	case 1:
		fill := x.Choose(3, "fill")
		n := x.Int(1, unit+1, "extend")
		e := make([]byte, n)
		for i := range e {
			switch fill {
			case 1:
				e[i] = 0xff
			case 2:
				if len(b) > 0 {
					e[i] = b[i%len(b)]
				}
			}
		}
		return append(append([]byte{}, b...), e...)
	case 2:
		if len(b) == 0 {
			return b
		}
		c := append([]byte{}, b...)
		i := x.Choose(len(b), "at")
		vs := byteVals(x, b[i])
		c[i] = vs[x.Choose(len(vs), "byte")]
		return c
	default: // drop a byte or a unit in the middle
		if len(b) == 0 {
			return nil
		}
		i := x.Choose(len(b), "cut")
		n := 1
		if x.Bool("unit") {
			n = unit / 2
		}
		if i+n > len(b) {
			n = len(b) - i
		}
		return append(append([]byte{}, b[:i]...), b[i+n:]...)
	}
}

// judge: re is the re-encoding of what was decoded from data.
func judge(x *engine.X, what string, data []byte, re []byte, err error) {
	if err != nil {
		x.Obs("%s error", what)
		return
	}
	can, ok := canonical(data)
	if !ok {
		x.Failf("%s accepted %d malformed bytes", what, len(data))
		return
	}
	if !bytes.Equal(re, can) {
		x.Failf("%s accepted %d bytes as an object that encodes differently (%d bytes)", what, len(data), len(re))
	}
	x.Obs("%s ok", what)
}

func c11Bytes(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 2)
	unit := libunlynx.CipherTextByteSize()
	mkCtr = 3
	dec := x.Choose(9, "decoder")
	n := 1
	if dec != 0 {
		n = x.PickI("n", 0, 1, 3)
		if dec >= 4 && n == 3 {
			n = 2
		}
	}
	cv := mkCV(n)
	enc, _, err := cv.ToBytes()
	if err != nil {
		x.Failf("ToBytes: %v", err)
		return
	}
	d := corrupt(x, enc, unit)
	in := append([]byte{}, d...)
	switch dec {
	case 0:
		var c libunlynx.CipherText
		err := c.FromBytes(d)
		var re []byte
		if err == nil {
			re, _ = c.ToBytes()
		}
		judge(x, "CipherText.FromBytes", d, re, err)
	case 1:
		var v libunlynx.CipherVector
		l := []int{n, len(d) / unit, n - 1, n + 1, 0}[x.Choose(5, "length")]
		err := v.FromBytes(d, l)
		var re []byte
		if err == nil {
			re, _, _ = v.ToBytes()
		}
		judge(x, "CipherVector.FromBytes", d, re, err)
	case 2:
		ps, err := libunlynx.FromBytesToAbstractPoints(d)
		var re []byte
		if err == nil {
			re, _ = libunlynx.AbstractPointsToBytes(ps)
		}
		judge(x, "FromBytesToAbstractPoints", d, re, err)
	case 3:
		var m protocolsunlynx.DeterministicTaggingMessage
		err := m.FromBytes(d)
		var re []byte
		if err == nil {
			re, _ = m.ToBytes()
		}
		judge(x, "DeterministicTaggingMessage.FromBytes", d, re, err)
	case 4: // maps of ciphertexts
		m, err := libunlynx.MapBytesToMapCipherText(map[string][]byte{"a": d})
		var re []byte
		if err == nil {
			c := m["a"]
			re, _ = c.ToBytes()
		}
		judge(x, "MapBytesToMapCipherText", d, re, err)
	case 5:
		snd := libunlynx.DpResponseToSend{}
		w := x.Choose(3, "where")
		switch w {
		case 0:
			snd.WhereEnc = map[string][]byte{"a": d}
		case 1:
			snd.GroupByEnc = map[string][]byte{"a": d}
		case 2:
			snd.AggregatingAttributesEnc = map[string][]byte{"a": d}
		}
		var r libunlynx.DpResponse
		err := r.FromDpResponseToSend(snd)
		var re []byte
		if err == nil {
			c := []map[string]libunlynx.CipherText{r.WhereEnc, r.GroupByEnc, r.AggregatingAttributesEnc}[w]["a"]
			re, _ = c.ToBytes()
		}
		judge(x, "FromDpResponseToSend", d, re, err)
	case 6: // responses: aggregating attributes first, then group
		var r libunlynx.FilteredResponse
		err := r.FromBytes(d, n-n/2, n/2)
		var re []byte
		if err == nil {
			re, _, _, _ = r.ToBytes()
		}
		judge(x, "FilteredResponse.FromBytes", d, re, err)
	case 7:
		var r libunlynx.ProcessResponse
		err := r.FromBytes(d, n/2, n-n/2, 0)
		var re []byte
		if err == nil {
			re, _, _, _, _ = r.ToBytes()
		}
		judge(x, "ProcessResponse.FromBytes", d, re, err)
	case 8:
		s := libunlynx.SuiTe
		e := libunlynxshuffle.CipherVectorScalarBytes{}
		if len(d) > 0 {
			h := len(d) / 2
			e.CipherV = [][][]byte{{d[:h], d[h:]}}
			if x.Bool("whole") {
				e.CipherV = [][][]byte{{d}}
			}
		}
		sb, _ := s.Scalar().SetInt64(5).MarshalBinary()
		e.S = [][]byte{sb}
		p, err := libunlynxshuffle.DecodeCipherVectorScalar([]libunlynxshuffle.CipherVectorScalarBytes{e})
		var re []byte
		if err == nil && len(p) == 1 {
			re, _, _ = p[0].CipherV.ToBytes()
		}
		judge(x, "DecodeCipherVectorScalar", d, re, err)
	}
	if !bytes.Equal(in, d) {
		x.Failf("the decoder changed its input")
	}
}

func c11Base64(x *engine.X) {
	s := libunlynx.SuiTe
	mkCtr = 7
	c := mkCV(1)[0]
	dec := x.Choose(4, "decoder")
	var enc string
	var err error
	switch dec {
	case 0, 1:
		enc, err = c.Serialize()
	case 2:
		enc, err = libunlynx.SerializePoint(c.K)
	case 3:
		enc, err = libunlynx.SerializeScalar(s.Scalar().SetInt64(-5))
	}
	if err != nil {
		x.Failf("serialize: %v", err)
		return
	}
	var st string
	switch x.Choose(5, "kind") {
	case 0:
		st = enc[:x.Int(0, len(enc), "truncate")]
	case 1:
		st = enc + []string{"A", "=", "AAAA", "AAA=", "\n", enc, "\x00", "é", enc[:8]}[x.Choose(9, "extend")]
	case 2:
		i := x.Choose(len(enc), "at")
		ch := []string{"A", "_", "-", "/", "=", "\n", " ", "z", "", "\xff"}[x.Choose(10, "char")]
		st = enc[:i] + ch + enc[i+1:]
	case 3: // well-formed base64 of a wrong number of bytes
		st = base64.URLEncoding.EncodeToString(make([]byte, x.Int(0, 70, "bytes")))
	case 4: // well-formed base64 of corrupted bytes
		raw, _ := base64.URLEncoding.DecodeString(enc)
		i := x.Choose(len(raw), "at")
		vs := byteVals(x, raw[i])
		raw[i] = vs[x.Choose(len(vs), "byte")]
		st = base64.URLEncoding.EncodeToString(raw)
	}
	raw, derr := base64.URLEncoding.DecodeString(st)
	fin := func(what string, re []byte, err error) {
		if err == nil && derr != nil {
			x.Failf("%s accepted invalid base64", what)
			return
		}
		judge(x, what, raw, re, err)
	}
	switch dec {
	case 0:
		var d libunlynx.CipherText
		err := d.Deserialize(st)
		var re []byte
		if err == nil {
			re, _ = d.ToBytes()
		}
		fin("CipherText.Deserialize", re, err)
	case 1:
		d, err := libunlynx.NewCipherTextFromBase64(st)
		var re []byte
		if err == nil {
			re, _ = d.ToBytes()
		}
		fin("NewCipherTextFromBase64", re, err)
	case 2:
		p, err := libunlynx.DeserializePoint(st)
		var re []byte
		if err == nil {
			re, _ = p.MarshalBinary()
		}
		fin("DeserializePoint", re, err)
	case 3:
		p, err := libunlynx.DeserializeScalar(st)
		if err != nil {
			x.Obs("DeserializeScalar error")
			return
		}
		o := s.Scalar()
		if derr != nil || o.UnmarshalBinary(raw) != nil || !p.Equal(o) {
			x.Failf("DeserializeScalar accepted %d malformed bytes", len(raw))
		}
		x.Obs("DeserializeScalar ok")
	}
}

var wildLens = []int{-1, 0, 1, 2, 3, 4, 5, 100, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 58, 1<<58 + 1, -(1 << 58)}

func c11Lengths(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 2)
	mkCtr = 11
	switch x.Choose(5, "decoder") {
	case 0:
		n := x.Int(0, 4, "n")
		enc, _, _ := func() ([]byte, int, error) { cv := mkCV(n); return cv.ToBytes() }()
		l := wildLens[x.Choose(len(wildLens), "length")]
		var v libunlynx.CipherVector
		err := v.FromBytes(enc, l)
		if err == nil && (l != n || len(v) != n) {
			x.Failf("CipherVector.FromBytes of %d ciphertexts accepts the length %d", n, l)
		}
		x.Obs("%d %d", n, l)
	case 1: // lists of vectors: the lengths are themselves bytes
		rows := [][]int{{}, {0}, {1}, {2, 1}, {1, 0, 2}}[x.Choose(5, "rows")]
		cvs := make([]libunlynx.CipherVector, len(rows))
		for i, r := range rows {
			cvs[i] = mkCV(r)
		}
		enc, le, err := libunlynx.ArrayCipherVectorToBytes(cvs)
		if err != nil {
			x.Failf("ArrayCipherVectorToBytes: %v", err)
			return
		}
		d, l := enc, le
		if x.Bool("data") {
			d = corrupt(x, enc, libunlynx.CipherTextByteSize())
		} else {
			l = corrupt(x, le, 8)
		}
		got, err := libunlynx.FromBytesToArrayCipherVector(d, l)
		if err != nil {
			x.Obs("error")
			return
		}
		re, rl, err := libunlynx.ArrayCipherVectorToBytes(got)
		can, ok := canonical(d)
		if err != nil || !ok || !bytes.Equal(re, can) || !bytes.Equal(rl, l) {
			x.Failf("FromBytesToArrayCipherVector accepted a malformed encoding (%d+%d bytes, rows %v)", len(d), len(l), rows)
		}
		x.Obs("ok%v", rows)
	case 2: // responses
		cv := mkCV(3)
		enc, _, _ := cv.ToBytes()
		enc = append(enc, "tagtags"...)
		w := func(l string) int {
			return []int{-1, 0, 1, 2, 3, math.MaxInt64, math.MinInt64, 1 << 58}[x.Choose(8, l)]
		}
		tags := func(l string) int {
			return []int{0, 3, 4, 7, -1, 8, 1000, math.MaxInt64, math.MinInt64}[x.Choose(9, l)]
		}
		switch x.Choose(4, "type") {
		case 0:
			var r libunlynx.FilteredResponse
			a, g := w("a"), w("g")
			if r.FromBytes(enc[:192], a, g) == nil && (a+g != 3 || a < 0 || g < 0) {
				x.Failf("FilteredResponse.FromBytes accepts lengths %d,%d for 3 ciphertexts", a, g)
			}
		case 1:
			var r libunlynx.FilteredResponseDet
			a, g, t := w("a"), w("g"), tags("t")
			if r.FromBytes(enc, g, a, t) == nil && (a+g != 3 || a < 0 || g < 0 || t != 7) {
				x.Failf("FilteredResponseDet.FromBytes accepts lengths %d,%d,%d for 3 ciphertexts", a, g, t)
			}
		case 2:
			var r libunlynx.ProcessResponse
			a, g, h := w("a"), w("g"), w("w")
			if r.FromBytes(enc[:192], g, a, h) == nil && (a+g+h != 3 || a < 0 || g < 0 || h < 0) {
				x.Failf("ProcessResponse.FromBytes accepts lengths %d,%d,%d for 3 ciphertexts", a, g, h)
			}
		case 3:
			var r libunlynx.ProcessResponseDet
			a, g, h, t, u := w("a"), w("g"), 0, tags("t"), tags("u")
			if r.FromBytes(enc, g, a, h, t, u) == nil && (a+g+h != 3 || a < 0 || g < 0 || t < 0 || u < 0 || t+u != 7) {
				x.Failf("ProcessResponseDet.FromBytes accepts lengths %d,%d,%d,%d,%d for 3 ciphertexts", a, g, h, t, u)
			}
		}
		x.Obs("r")
	case 3: // aggregated data
		n := x.Int(0, 2, "n")
		var enc []byte
		for i := 0; i < n; i++ {
			cv := mkCV(2)
			e, _, _ := cv.ToBytes()
			enc = append(append(enc, e...), "ab"...)
		}
		enc = append(enc, make([]byte, x.PickI("extra", 0, 1, 64, 130))...)
		l := func(s string) int {
			return []int{0, 1, 2, -1, 3, math.MaxInt64, math.MinInt64, 1 << 58}[x.Choose(8, s)]
		}
		var m protocolsunlynx.ChildAggregatedDataMessage
		g, a, t := l("g"), l("a"), l("t")
		err := m.FromBytes(enc, g, a, t)
		if err == nil && len(enc) > 0 {
			re, _, _, _, err := m.ToBytes()
			if err != nil || !bytes.Equal(re, enc) {
				x.Failf("ChildAggregatedDataMessage.FromBytes accepts lengths %d,%d,%d for %d bytes", g, a, t, len(enc))
			}
		}
		x.Obs("%d %d %d %d", n, g, a, t)
	case 4:
		n := x.Int(0, 3, "points")
		cv := mkCV(2)
		kb, _ := libunlynx.AbstractPointsToBytes([]kyber.Point{cv[0].K, cv[1].K, cv[0].C}[:n])
		kb = kb[:len(kb)-[]int{0, 1, 32}[x.Choose(3, "less")]*boolInt(n > 0)]
		enc, le, _ := libunlynx.ArrayCipherVectorToBytes([]libunlynx.CipherVector{cv})
		var m protocolsunlynx.ShufflingPlusDDTMessage
		if m.FromBytes(enc, kb, le) == nil && len(kb) != 32 {
			x.Failf("ShufflingPlusDDTMessage.FromBytes accepts a key of %d bytes", len(kb))
		}
		x.Obs("%d", len(kb))
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c11Proofs(x *engine.X) {
	verifreset.Set("VPARALLELIZE", 2)
	mkCtr = 5
	unit := libunlynx.CipherTextByteSize()
	cv := mkCV(3)
	switch x.Choose(3, "kind") {
	case 0:
		p := libunlynxkeyswitch.PublishedKSProof{K: cv[0].K, ViB: cv[0].C, Ks2: cv[1].K, RbNeg: cv[1].C, Q: cv[2].C}
		b, err := p.ToBytes()
		if err != nil {
			x.Failf("%v", err)
			return
		}
		b.KVibKs2RbNegQ = corrupt(x, b.KVibKs2RbNegQ, unit)
		l := libunlynxkeyswitch.PublishedKSListProof{}
		err = l.FromBytes(libunlynxkeyswitch.PublishedKSListProofBytes{List: []libunlynxkeyswitch.PublishedKSProofBytes{b}})
		var re []byte
		if err == nil {
			r, _ := l.List[0].ToBytes()
			re = r.KVibKs2RbNegQ
		}
		judge(x, "PublishedKSListProof.FromBytes", b.KVibKs2RbNegQ, re, err)
	case 1:
		p := libunlynxaggr.PublishedAggregationProof{Data: cv[:2], AggregationResult: cv[2]}
		b, err := p.ToBytes()
		if err != nil {
			x.Failf("%v", err)
			return
		}
		switch x.Choose(3, "part") {
		case 0:
			b.Data = corrupt(x, b.Data, unit)
		case 1:
			b.AggregationResult = corrupt(x, b.AggregationResult, unit)
		case 2:
			b.DataLen = int64(wildLens[x.Choose(len(wildLens), "length")])
		}
		l := libunlynxaggr.PublishedAggregationListProof{}
		err = l.FromBytes(libunlynxaggr.PublishedAggregationListProofBytes{List: []libunlynxaggr.PublishedAggregationProofBytes{b}})
		var re []byte
		if err == nil {
			r, _ := l.List[0].ToBytes()
			re = append(append([]byte{}, r.Data...), r.AggregationResult...)
			if r.DataLen != b.DataLen {
				x.Failf("aggregation proof accepted with the length %d", b.DataLen)
			}
		}
		judge(x, "PublishedAggregationListProof.FromBytes", append(append([]byte{}, b.Data...), b.AggregationResult...), re, err)
	case 2:
		p := libunlynxshuffle.PublishedShufflingProof{OriginalList: []libunlynx.CipherVector{cv[:2]}, ShuffledList: []libunlynx.CipherVector{cv[:1], cv[1:]}, G: cv[0].C, H: cv[1].C}
		b, err := p.ToBytes()
		if err != nil {
			x.Failf("%v", err)
			return
		}
		f := []**[]byte{&b.OriginalList, &b.OriginalListLength, &b.ShuffledList, &b.ShuffledListLength, &b.G, &b.H}[x.Choose(6, "field")]
		if x.Bool("missing") {
			*f = nil
		} else {
			c := corrupt(x, **f, 8)
			*f = &c
		}
		var d libunlynxshuffle.PublishedShufflingProof
		err = d.FromBytes(b)
		if err == nil {
			r, err := d.ToBytes()
			ok := err == nil
			for _, pr := range [][2]*[]byte{{r.OriginalList, b.OriginalList}, {r.ShuffledList, b.ShuffledList}, {r.G, b.G}, {r.H, b.H}} {
				if ok {
					if pr[1] == nil {
						ok = false
						continue
					}
					var can []byte
					can, ok = canonical(*pr[1])
					ok = ok && bytes.Equal(can, *pr[0])
				}
			}
			ok = ok && b.OriginalListLength != nil && bytes.Equal(*r.OriginalListLength, *b.OriginalListLength) && b.ShuffledListLength != nil && bytes.Equal(*r.ShuffledListLength, *b.ShuffledListLength)
			if !ok {
				x.Failf("PublishedShufflingProof.FromBytes accepted a malformed encoding")
			}
		}
		x.Obs("s%v", err == nil)
	}
}
