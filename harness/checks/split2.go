package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	servicesunlynx "github.com/ldsec/unlynx/services"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Further functions under every schedule of the goroutines among which they
// split (or come to split) their work.

func init() {
	for _, s := range []struct {
		n, p string
		dev  int
		run  func(*engine.X)
	}{
		{"c11-split", "C11", 1, c11Split}, {"c13-split", "C13", 1, c14Split}, {"c17-split", "C17", 1, c17Split}, {"c18-split", "C18", 1, c18Split},
		{"c20-split", "C20", 1, c20Split}, {"c24-threads", "C24", 1, c24Threads}, {"c25-split", "C25", 1, c25Split},
	} {
		engine.Register(&engine.Scenario{Name: s.n, Prop: s.p, MaxDev: s.dev, MaxDevT: s.dev + 1, Run: s.run})
	}
}

// c11Split decodes a list in which one element is malformed.
func c11Split(x *engine.X) {
	n := splitToy(x, 3)
	bad := x.Choose(n, "malformed")
	l := libunlynx.SuiTe.PointLen()
	spoil := func(b []byte, point int) []byte {
		b = append([]byte{}, b...)
		for i := 0; i < l; i++ {
			b[point*l+i] = 0xff
		}
		return b
	}
	what := ""
	var f func() error
	fatal := func(err error) bool { return !need(x, err, "encoding a %s", what) }
	switch x.Choose(6, "object") {
	case 0:
		what = "list of vectors"
		var cvs, out []libunlynx.CipherVector
		for i := 0; i < n; i++ {
			cvs = append(cvs, mkCV(1))
		}
		b, ls, err := libunlynx.ArrayCipherVectorToBytes(cvs)
		if fatal(err) {
			return
		}
		b = spoil(b, 2*bad+1)
		f = func() (err error) { out, err = libunlynx.FromBytesToArrayCipherVector(b, ls); _ = out; return }
	case 1:
		what = "message of the shuffle"
		m := protocolsunlynx.ShufflingMessage{}
		for i := 0; i < n; i++ {
			m.Data = append(m.Data, mkCV(1))
		}
		b, ls, err := m.ToBytes()
		if fatal(err) {
			return
		}
		b = spoil(b, 2*bad+1)
		f = func() error { return new(protocolsunlynx.ShufflingMessage).FromBytes(b, ls) }
	case 2:
		what = "message of the tagging"
		m := protocolsunlynx.DeterministicTaggingMessage{Data: mkCV(n)}
		b, err := m.ToBytes()
		if fatal(err) {
			return
		}
		b = spoil(b, 2*bad+1)
		f = func() error { return new(protocolsunlynx.DeterministicTaggingMessage).FromBytes(b) }
	case 3:
		what = "message of the aggregation"
		m := protocolsunlynx.ChildAggregatedDataMessage{}
		for i := 0; i < n; i++ {
			m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(strings.Repeat("k", l)),
				Fr: libunlynx.FilteredResponse{GroupByEnc: mkCV(1), AggregatingAttributes: mkCV(1)}})
		}
		b, g, a, d, err := m.ToBytes()
		if fatal(err) {
			return
		}
		at := 5 * bad
		if x.Bool("second vector") {
			at += 2
		}
		b = spoil(b, at)
		f = func() error { return new(protocolsunlynx.ChildAggregatedDataMessage).FromBytes(b, g, a, d) }
	case 4:
		what = "list of precomputed values"
		var cs []libunlynxshuffle.CipherVectorScalar
		for i := 0; i < n; i++ {
			cs = append(cs, libunlynxshuffle.CipherVectorScalar{CipherV: mkCV(1), S: surveySecrets(1)})
		}
		b, err := libunlynxshuffle.EncodeCipherVectorScalar(cs)
		if fatal(err) {
			return
		}
		at := x.Choose(2, "point")
		b[bad].CipherV[0][at] = spoil(b[bad].CipherV[0][at], 0)
		f = func() error { _, err := libunlynxshuffle.DecodeCipherVectorScalar(b); return err }
	case 5:
		what = "list of key switching proofs"
		p := mkProofs(x, "keyswitch", n, 0)
		b, err := p.ks.ToBytes()
		if fatal(err) {
			return
		}
		b.List[bad].KVibKs2RbNegQ = spoil(b.List[bad].KVibKs2RbNegQ, 2)
		f = func() error { return new(plist).ks.FromBytes(b) }
	}
	var err error
	if split(x, "decoding a "+what, false, func() { err = f() }) && err == nil {
		x.Failf("a %s of %d whose element %d is malformed is decoded without an error", what, n, bad)
	}
	x.Obs("%s %d %d", what, n, bad)
}

// c17Split runs the protocol with a goroutine per ciphertext.
func c17Split(x *engine.X) {
	n := splitToy(x, 3)
	add, proofs := x.Bool("add"), x.Bool("proofs")
	k, pub := libunlynx.GenKey()
	a, _ := libunlynx.GenKey()
	vals := []int64{7, -2, 30}[:n]
	cts := []libunlynx.CipherText(*libunlynx.EncryptIntVector(pub, vals))
	before := copyCV(cts)
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, toySuite)
		defer c.Close()
		pi, err := c.Local.CreateProtocol("VerifAddRm", c.Roster.GenerateBinaryTree())
		if !need(x, err, "creating the protocol") {
			return
		}
		m := pi.(*manual)
		defer close(m.stop)
		p := m.ProtocolInstance.(*protocolsunlynxutils.AddRmServerProtocol)
		p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = cts, a, add, proofs
		var out []libunlynx.CipherText
		run := cluster.OpThreads
		if proofs {
			run = cluster.DelayThreads
		}
		sites := func(s string) bool {
			return strings.HasPrefix(s, "lib/add_rm/") || strings.HasPrefix(s, "protocols/utils/addrm")
		}
		if !run(x, sites, time.Minute,
			cluster.Thread{Name: "start", Body: func() {
				if err := p.Start(); err != nil {
					x.Failf("adding/removing a server fails: %v", err)
				}
			}},
			cluster.Thread{Name: "dispatch", Body: func() { p.Dispatch() }},
			cluster.Thread{Name: "recv", Body: func() { out = <-p.FeedbackChannel }}) {
			if !x.Failed() {
				x.Failf("adding/removing a server over %d ciphertexts does not end", n)
			}
			return
		}
		nk := libunlynx.SuiTe.Scalar().Sub(k, a)
		if add {
			nk = libunlynx.SuiTe.Scalar().Add(k, a)
		}
		if len(out) != n {
			x.Failf("%d ciphertexts become %d", n, len(out))
			return
		}
		for i := range out {
			if !encodes(nk, out[i], vals[i]) || !sameCT(cts[i], before[i]) {
				x.Failf("add %v: number %d of %d does not decrypt to its value under the new collective secret (or the input changed)", add, i, n)
			}
		}
	})
	x.Obs("%d %v %v", n, add, proofs)
}

// c18Split: the operations of the store that compute.
func c18Split(x *engine.X) {
	n := splitToy(x, 3)
	k, pub := libunlynx.GenKey()
	same := x.Bool("one group")
	fr := func(i int) libunlynx.FilteredResponse {
		g := int64(i)
		if same {
			g = 0
		}
		return libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{g}), AggregatingAttributes: *libunlynx.EncryptIntVector(pub, []int64{1 << uint(4*i), int64(i)})}
	}
	key := func(i int) libunlynx.GroupingKey {
		if same {
			return "t"
		}
		return libunlynx.GroupingKey(sprintf("t%d", i))
	}
	want := map[string][2]int64{}
	for i := 0; i < n; i++ {
		g := int64(i)
		if same {
			g = 0
		}
		e := want[string(key(i))]
		want[string(key(i))] = [2]int64{e[0] + 1<<uint(4*i), e[1] + int64(i)}
		_ = g
	}
	s := libunlynxstore.NewStore()
	got := map[string][2]int64{}
	read := func(id string, f libunlynx.FilteredResponse, minus int64) {
		got[id] = [2]int64{toySigned(k, f.AggregatingAttributes[0]) - minus, toySigned(k, f.AggregatingAttributes[1]) - minus}
	}
	op := x.Choose(5, "operation")
	ok := false
	switch op {
	case 0, 1: // locally aggregated responses, without and with proofs
		var l []libunlynx.FilteredResponseDet
		for i := 0; i < n; i++ {
			l = append(l, libunlynx.FilteredResponseDet{DetTagGroupBy: key(i), Fr: fr(i)})
		}
		ok = split(x, "aggregating", false, func() { s.PushDeterministicFilteredResponses(l, "s", op == 1) })
		if ok {
			for id, f := range s.PullLocallyAggregatedResponses() {
				read(string(id), f, 0)
			}
		}
	case 2: // two parts of the cothority's groups
		parts := []map[libunlynx.GroupingKey]libunlynx.FilteredResponse{{}, {}}
		for i := 0; i < n; i++ {
			// a group is once in a part
			if same && i > 1 {
				want[string(key(i))] = [2]int64{want[string(key(i))][0] - 1<<uint(4*i), want[string(key(i))][1] - int64(i)}
				continue
			}
			parts[i%2][key(i)] = fr(i)
		}
		ok = split(x, "pushing groups", false, func() {
			for _, p := range parts {
				s.PushCothorityAggregatedFilteredResponses(p)
			}
		})
		if ok {
			for _, f := range s.PullCothorityAggregatedFilteredResponses(false, libunlynx.CipherText{}) {
				id := "t"
				if !same {
					id = sprintf("t%d", toySigned(k, f.GroupByEnc[0]))
				}
				read(id, f, 0)
			}
		}
	case 3, 4: // the noise of the results
		noise := *libunlynx.EncryptInt(pub, 1000)
		if same {
			return
		}
		var fs []libunlynx.FilteredResponse
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		for i := 0; i < n; i++ {
			fs = append(fs, fr(i))
			m[key(i)] = fs[i]
		}
		if op == 3 {
			s.PushCothorityAggregatedFilteredResponses(m)
		} else {
			s.PushQuerierKeyEncryptedResponses(fs)
		}
		var r []libunlynx.FilteredResponse
		ok = split(x, "adding noise", false, func() {
			if op == 3 {
				r = s.PullCothorityAggregatedFilteredResponses(true, noise)
			} else {
				r = s.PullDeliverableResults(true, noise)
			}
		})
		for _, f := range r {
			read(sprintf("t%d", toySigned(k, f.GroupByEnc[0])), f, 1000)
		}
	}
	if ok && fmt.Sprint(got) != fmt.Sprint(want) {
		x.Failf("operation %d with %d responses, one group %v: the store gives %v instead of %v", op, n, same, got, want)
	}
	x.Obs("%d %d %v", op, n, same)
}

// c20Split: the data tools.
func c20Split(x *engine.X) {
	n := splitToy(x, 3)
	row := func(g, w, a int64) libunlynx.DpClearResponse {
		return libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, GroupByEnc: map[string]int64{"g1": 2}, WhereClear: map[string]int64{}, WhereEnc: map[string]int64{"w0": w},
			AggregatingAttributesClear: map[string]int64{}, AggregatingAttributesEnc: map[string]int64{"s0": a}}
	}
	data := map[string][]libunlynx.DpClearResponse{}
	sums := map[int64]int64{}
	for i := 0; i < n; i++ {
		v := int64(1) << uint(4*i)
		data[sprintf("%d", i)] = []libunlynx.DpClearResponse{row(int64(i%2), 1, v), row(5, 0, v), row(6, 1, v)}
		sums[int64(i%2)] += v
		sums[6] += v
	}
	op := x.Choose(5, "operation")
	what := ""
	switch op {
	case 0:
		what = "enumerating groups"
		var gs [][]int64
		if split(x, what, false, func() { dataunlynx.AllPossibleGroups([]int64{int64(n), 2}, nil, 0, &gs) }) {
			seen := map[string]bool{}
			for _, g := range gs {
				seen[fmt.Sprint(g)] = true
			}
			if len(gs) != 2*n || len(seen) != 2*n {
				x.Failf("groups %v of types [%d 2]", gs, n)
			}
		}
	case 1:
		what = "generating data"
		var d map[string][]libunlynx.DpClearResponse
		var err error
		if split(x, what, false, func() {
			d, err = dataunlynx.GenerateData(int64(n), 2, 1, 1, 0, 1, 0, 0, 1, []int64{2}, false)
		}) && need(x, err, what) {
			for i := 0; i < n; i++ {
				p := d[sprintf("%d", i)]
				if len(d) != n || len(p) != 2 || p[0].WhereClear["w0"] != 1 || p[1].WhereClear["w0"] != 0 || p[0].GroupByClear["g0"]+p[1].GroupByClear["g0"] != 1 {
					x.Failf("generated data of provider %d: %v", i, d)
				}
			}
		}
	case 2:
		what = "computing the expected result"
		var r []libunlynx.DpClearResponse
		if split(x, what, false, func() { r = dataunlynx.ComputeExpectedResult(data, 1, true) }) {
			got := map[int64]int64{}
			for _, e := range r {
				got[e.GroupByClear["g0"]] += e.AggregatingAttributesClear["s0"]
			}
			if len(r) != len(sums) || fmt.Sprint(got) != fmt.Sprint(sums) {
				x.Failf("expected result %v of %v", r, data)
			}
		}
	case 3:
		what = "writing and reading a file"
		dir := scratch(x)
		defer os.RemoveAll(dir)
		var d map[string][]libunlynx.DpClearResponse
		var err, err2 error
		if split(x, what, false, func() {
			err = dataunlynx.WriteDataToFile(filepath.Join(dir, "d.txt"), data)
			d, err2 = dataunlynx.ReadDataFromFile(filepath.Join(dir, "d.txt"))
		}) && need(x, err, what) && need(x, err2, what) && !reflect.DeepEqual(d, data) {
			x.Failf("written %v, read %v", data, d)
		}
	case 4:
		what = "comparing results"
		var a, b []libunlynx.DpClearResponse
		for i := 0; i < n; i++ {
			a = append(a, row(int64(i), 1, 7))
			b = append([]libunlynx.DpClearResponse{row(int64(i), 1, 7)}, b...)
		}
		bad := x.Int(-1, n-1, "different")
		if bad >= 0 {
			b[bad].AggregatingAttributesEnc["s0"]++
		}
		eq := false
		if split(x, what, false, func() { eq = dataunlynx.CompareClearResponses(a, b) }) && eq != (bad < 0) {
			x.Failf("%v and %v are said to be equal: %v", a, b, eq)
		}
	}
	x.Obs("%s %d", what, n)
}

// c24Threads: key generation and splitting.
func c24Threads(x *engine.X) {
	n := splitToy(x, 3)
	s := libunlynx.SuiTe
	if x.Bool("splitting") {
		sec := s.Scalar().SetInt64(12)
		if split(x, "splitting a secret", false, func() {
			sum := s.Scalar().Zero()
			sh := libunlynx.SplitScalar(sec, n)
			for _, e := range sh {
				sum.Add(sum, e)
			}
			if len(sh) != n+1 || !sum.Equal(s.Scalar().SetInt64(12)) || !sec.Equal(s.Scalar().SetInt64(12)) {
				x.Failf("%d shares of the secret do not sum to it", n)
			}
		}) {
			x.Obs("split %d", n)
		}
		return
	}
	if split(x, "generating keys", true, func() {
		agg, priv, pub := libunlynx.GenKeys(n)
		sum := s.Point().Null()
		for i := range pub {
			if !s.Point().Mul(priv[i], nil).Equal(pub[i]) {
				x.Failf("key pair %d of %d does not match", i, n)
			}
			sum.Add(sum, pub[i])
			for j := 0; j < i; j++ {
				if priv[i].Equal(priv[j]) {
					x.Failf("keys %d and %d of %d are the same", j, i, n)
				}
			}
		}
		if len(priv) != n || len(pub) != n || !sum.Equal(agg) {
			x.Failf("the collective key of %d servers is not the sum of their keys", n)
		}
	}) {
		x.Obs("keys %d", n)
	}
}

// c25Split filters rows.
func c25Split(x *engine.X) {
	useToy(25)
	verifreset.Set("VPARALLELIZE", 1)
	rows, tags := c25Rows([]string{"1", "a"}, 1)
	n := x.Int(2, 4, "rows")
	rows, tags = rows[:n], tags[:n]
	q := []libunlynx.WhereQueryAttributeTagged{{Name: "w1", Value: "a"}}
	pred := []string{"v0 == v1", "v0 != v1", "v0 == v1 || v0 != v1", "v0 == w"}[x.Choose(4, "predicate")]
	var out []libunlynx.FilteredResponseDet
	if split(x, "filtering", false, func() {
		if pred == "" {
			out = servicesunlynx.FilterNone(rows)
		} else {
			out = servicesunlynx.FilterResponses(pred, q, rows)
		}
	}) {
		c25Check(x, sprintf("predicate %q", pred), rows, func(i int) bool {
			switch pred {
			case "v0 == v1":
				return tags[i][0] == "a"
			case "v0 != v1":
				return tags[i][0] != "a"
			}
			return pred != "v0 == w"
		}, out)
	}
	x.Obs("%d %s", n, pred)
}
