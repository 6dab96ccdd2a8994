package checks

import (
	"fmt"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

func init() {
	engine.Register(&engine.Scenario{Name: "c18-threads", Prop: "C18", MaxDev: 2, MaxDevT: 3, Run: c18Threads})
}

// c18Threads: insertions (and a retrieval) at the same time, as several data
// providers cause them.
func c18Threads(x *engine.X) {
	useToy(18)
	verifreset.Set("VPARALLELIZE", 100)
	k, pub := libunlynx.GenKey()
	s := libunlynxstore.NewStore()
	enc := x.Choose(3, "clear, encrypted, one of each")
	pull := x.Bool("retrieval at the same time")
	want := map[string]int64{}
	var rows []string
	resp := func(i, g int) libunlynx.DpResponse {
		v := int64(1) << uint(3*i+g)
		r := libunlynx.DpResponse{AggregatingAttributesEnc: map[string]libunlynx.CipherText{"s": *libunlynx.EncryptInt(pub, v)}}
		if enc == 1 || enc == 2 && i == 1 {
			r.GroupByEnc = map[string]libunlynx.CipherText{"g": *libunlynx.EncryptInt(pub, int64(g))}
			rows = append(rows, fmt.Sprintf("g[%d] a[%d]", g, v))
		} else {
			r.GroupByClear = map[string]int64{"g": int64(g)}
			want[fmt.Sprint(g)] += v
		}
		return r
	}
	var data [][]libunlynx.DpResponse
	for i := 0; i < 2; i++ {
		data = append(data, []libunlynx.DpResponse{resp(i, 0), resp(i, i)})
	}
	var got []libunlynx.ProcessResponse
	ths := []cluster.Thread{}
	for i := range data {
		ths = append(ths, cluster.Thread{Name: sprintf("insert%d", i), Body: func() {
			for _, r := range data[i] {
				s.InsertDpResponse(r, false, []string{"g"}, []string{"s"}, nil)
			}
		}})
	}
	if pull {
		name := []string{"get", "pull"}[x.Choose(2, "first")] // (the default order is that of the names)
		ths = append(ths, cluster.Thread{Name: name, Body: func() { got = s.PullDpResponses() }})
	}
	sites := func(s string) bool { return strings.HasPrefix(s, "lib/store/") }
	done := false
	cluster.Bubble(x, func() { done = cluster.DelayThreads(x, sites, time.Minute, ths...) })
	if !done {
		if !x.Failed() {
			x.Failf("the insertions do not end")
		}
		return
	}
	got = append(got, s.PullDpResponses()...)
	have := map[string]int64{}
	var out []string
	for _, p := range got {
		g, a := toySignedV(k, p.GroupByEnc), toySignedV(k, p.AggregatingAttributes)
		if len(p.GroupByEnc) != 1 || len(a) != 1 {
			x.Failf("a stored response has %d group values and %d sums", len(g), len(a))
			return
		}
		e := fmt.Sprintf("g%v a%v", g, a)
		found := false
		for _, r := range rows {
			found = found || r == e
		}
		if found {
			out = append(out, e)
		} else {
			have[fmt.Sprint(g[0])] += a[0]
		}
	}
	if fmt.Sprint(have) != fmt.Sprint(want) || strings.Join(sortedS(out), ";") != strings.Join(sortedS(rows), ";") {
		x.Failf("kind %d, retrieval %v: sums %v and responses %v are stored instead of %v and %v", enc, pull, have, sortedS(out), want, sortedS(rows))
	}
	x.Obs("%d %v %d", enc, pull, len(got))
}
