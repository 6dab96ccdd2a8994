package checks

import (
	"fmt"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"

	"unlynxverif/engine"
)

func init() {
	engine.Register(&engine.Scenario{Name: "c20-compare-maps", Prop: "C20", Run: c20CompareMaps})
	engine.Register(&engine.Scenario{Name: "c09-vectors", Prop: "C09", Run: func(x *engine.X) { tagVectors(x, false) }})
	engine.Register(&engine.Scenario{Name: "c12-vectors", Prop: "C12", Run: func(x *engine.X) { tagVectors(x, true) }})
}

// c20CompareMaps compares responses that differ in one or two of their six maps.
func c20CompareMaps(x *engine.X) {
	alpha := []map[string]int64{nil, {}, {"a": 0}, {"a": 1}, {"b": 1}, {"a": 1, "b": 1}}
	var r [2]libunlynx.DpClearResponse
	f := x.Int(0, 5, "first map")
	g := x.Int(f, 5, "second map")
	mk := func(i int) {
		var m [6]map[string]int64
		m[f] = alpha[x.Choose(len(alpha), "content")]
		if g != f {
			m[g] = alpha[x.Choose(len(alpha), "content")]
		}
		r[i] = libunlynx.DpClearResponse{GroupByClear: m[0], GroupByEnc: m[1], WhereClear: m[2], WhereEnc: m[3], AggregatingAttributesClear: m[4], AggregatingAttributesEnc: m[5]}
	}
	mk(0)
	mk(1)
	want := clearString(r[0]) == clearString(r[1])
	if got := dataunlynx.CompareClearResponses(r[:1], r[1:]); got != want {
		x.Failf("comparing %s with %s gives %v", clearString(r[0]), clearString(r[1]), got)
	}
	// among equal ones
	o := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"o": 1}}
	if got := dataunlynx.CompareClearResponses([]libunlynx.DpClearResponse{o, r[0]}, []libunlynx.DpClearResponse{r[1], o}); got != want {
		x.Failf("comparing lists with %s and %s gives %v", clearString(r[0]), clearString(r[1]), got)
	}
}

// tagVectors makes grouping keys from encrypted vectors, as a single server does.
func tagVectors(x *engine.X, proofs bool) {
	suiteChoice(x)
	S := libunlynx.SuiTe
	priv, sec := S.Scalar().SetInt64(5), S.Scalar().SetInt64(9)
	pub := S.Point().Mul(priv, nil)
	n := x.Int(0, 3, "length")
	var v [2][]int64
	hi := 3
	if n == 3 && !x.Thorough() {
		hi = 2
	}
	for i := range v {
		for j := 0; j < n; j++ {
			v[i] = append(v[i], x.Pick64("value", []int64{0, 1, 7}[:hi]...))
		}
	}
	for _, way := range []string{"library", "protocol"} {
		var key [2]libunlynx.GroupingKey
		for i := range v {
			cv := encAll(pub, v[i])
			before := copyCV(cv)
			var err error
			if way == "library" {
				var p *libunlynxdetertag.PublishedDDTCreationListProof
				key[i], p, err = libunlynxdetertag.CipherVectorToDeterministicTag(cv, priv, sec, pub, proofs)
				if proofs && err == nil {
					if p == nil || len(p.List) != n {
						x.Failf("the tag of %v has no proof for each of its parts", v[i])
						return
					}
					for j := range p.List {
						if !sameCT(p.List[j].CTbef, before[j]) {
							x.Failf("the proof of the tag of %v does not publish its own input", v[i])
						}
					}
					if n > 0 && !libunlynxdetertag.DeterministicTagCrListProofVerification(*p, 1) {
						x.Failf("the proof of the tag of %v is rejected", v[i])
					}
				}
			} else {
				key[i], err = protocolsunlynx.CipherVectorToDeterministicTag(cv, priv, sec, pub, proofs)
			}
			if err != nil {
				x.Failf("tag of %v (%s): %v", v[i], way, err)
				return
			}
			if !sameCV(cv, before) {
				x.Failf("the %s changes the vector it makes a tag of", way)
			}
		}
		same := fmt.Sprint(v[0]) == fmt.Sprint(v[1])
		if (key[0] == key[1]) != same {
			x.Failf("%s: keys of %v and %v: equal %v", way, v[0], v[1], key[0] == key[1])
		}
	}
}
