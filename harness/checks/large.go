package checks

import (
	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/cluster"
	"unlynxverif/engine"
	"unlynxverif/verifreset"
)

// Sizes beyond those whose other dimensions are enumerated: numbers of elements
// around multiples of the chunk size and of a byte, and more servers.

func init() {
	for _, s := range []struct {
		p   string
		run func(*engine.X)
	}{{"C07", c07Large}, {"C08", c08Large}, {"C09", c09Large}, {"C15", c15Large}, {"C17", c17Large}} {
		engine.Register(&engine.Scenario{Name: "c" + s.p[1:] + "-large", Prop: s.p, Run: s.run})
	}
}

// large picks a tree and a number of elements.
func large(x *engine.X) (par []int, shape, rot, n int) {
	useToy(3)
	ns, sizes := []int{1, 2, 3, 5, 7}, []int{4, 11, 100, 101, 257}
	if x.Thorough() {
		ns, sizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12}, []int{4, 11, 50, 99, 100, 101, 102, 199, 200, 201, 256, 257, 301, 1001}
	}
	m := x.PickI("servers", ns...)
	shapes := 1
	if m > 2 {
		shapes = 3
	}
	shape = x.Choose(shapes, "star, chain, binary")
	for i := 1; i < m; i++ {
		par = append(par, []int{0, i - 1, (i - 1) / 2}[shape])
	}
	if m > 1 {
		rot = []int{0, m - 1}[x.Choose(2, "root")]
	}
	n = x.PickI("elements", sizes...)
	if x.Bool("chunks of three") {
		verifreset.Set("VPARALLELIZE", 3)
	}
	return
}

func largeVals(n int) []int64 {
	v := make([]int64, n)
	for i := range v {
		v[i] = int64(i*i%13 - 3)
		if i%50 == 49 {
			v[i] = 9 // in the clear
		}
	}
	return v
}

func c07Large(x *engine.X) {
	par, _, rot, n := large(x)
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		target, pub := libunlynx.GenKey()
		in := encAll(c.Roster.Aggregate, largeVals(n))
		out := c07Run(x, c, t, in, pub, false, true)
		c07Check(x, t, collective(c), target, in, out)
	})
	x.Obs("%v %d %d", par, rot, n)
}

func c08Large(x *engine.X) {
	par, _, rot, n := large(x)
	if n > 300 {
		return
	}
	m := 1 + n%2
	if n == 4 {
		m = x.PickI("columns", 11, 33, 101, 257)
	}
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		t := mkTree(c, par, rot)
		var rows [][]int64
		for i, v := range largeVals(n) {
			r := []int64{v}
			for j := 1; j < m; j++ {
				r = append(r, int64(i*j%7))
			}
			rows = append(rows, r)
		}
		in := rowsOf(c.Roster.Aggregate, rows, false)
		out := c08Run(x, c, t, in, c08opt{fifo: true})
		c08Check(x, t.desc, collective(c), in, out)
	})
	x.Obs("%v %d %d", par, rot, n)
}

func c09Large(x *engine.X) {
	par, shape, rot, n := large(x)
	if x.Bool("combined") {
		if n > 300 {
			return
		}
		inCluster(x, len(par)+1, func(c *cluster.Cluster) {
			t := mkTree(c, par, rot)
			var rows [][]int64
			for i, v := range largeVals(n) {
				rows = append(rows, []int64{v, int64(i % 3)})
			}
			tags := c09CRun(x, c, t, surveySecrets(len(par)+1), rowsOf(c.Roster.Aggregate, rows, false), false, false, true)
			c09Match(x, t.desc, [][][]int64{rows}, [][][]string{tags})
		})
		x.Obs("%v %d %d combined", par, rot, n)
		return
	}
	par2 := make([]int, len(par)) // the second request: another tree
	for i := range par2 {
		par2[i] = []int{i / 2, 0, i}[shape]
	}
	inCluster(x, len(par)+1, func(c *cluster.Cluster) {
		v := largeVals(n)
		c09Pair(x, c, par, par2, rot, v, append([]int64{77, -3}, v[:n/3]...), false)
	})
	x.Obs("%v %d %d", par, rot, n)
}

func c15Large(x *engine.X) {
	par, _, rot, n := large(x)
	kind := x.Choose(4, "vectors, all groups, own groups, overlapping groups")
	m := len(par) + 1
	var data []map[string]aggGroup
	for s := 0; s < m; s++ {
		d := map[string]aggGroup{}
		val := func(i int) int64 { return int64((i%9 + 1) * (s*s + 1)) }
		if kind == 0 {
			var a aggGroup
			for i := 0; i < n; i++ {
				a.attrs = append(a.attrs, val(i))
			}
			d[""] = a
		} else {
			for g := 0; g < n; g++ {
				if kind == 2 && g%m != s || kind == 3 && g%(s+1) != 0 {
					continue
				}
				d[sprintf("k%04d", g)] = aggGroup{group: []int64{int64(g), 1}, attrs: []int64{val(g), int64(-s)}}
			}
		}
		data = append(data, d)
	}
	inCluster(x, m, func(c *cluster.Cluster) {
		c15Run(x, c, mkTree(c, par, rot), data, kind == 0, false, true)
	})
	x.Obs("%v %d %d %d", par, rot, n, kind)
}

func c17Large(x *engine.X) {
	useToy(17)
	n := x.PickI("ciphertexts", 99, 100, 101, 199, 200, 201, 257, 301, 1001)
	chunk := x.PickI("chunk", 100, 3, 50)
	verifreset.Set("VPARALLELIZE", chunk)
	add := x.Bool("add")
	k, pub := libunlynx.GenKey()
	a, _ := libunlynx.GenKey()
	vals := largeVals(n)
	cluster.Bubble(x, func() {
		c := cluster.New(x, 1, toySuite)
		defer c.Close()
		cts := addRm(x, c, []libunlynx.CipherText(encAll(pub, vals)), a, add, false)
		nk := libunlynx.SuiTe.Scalar().Sub(k, a)
		if add {
			nk = libunlynx.SuiTe.Scalar().Add(k, a)
		}
		if len(cts) != n {
			x.Failf("%d ciphertexts become %d", n, len(cts))
			return
		}
		for i := range cts {
			if !encodes(nk, cts[i], vals[i]) {
				x.Failf("add %v: number %d of %d does not decrypt to its value under the new collective secret", add, i, n)
				return
			}
		}
	})
	x.Obs("%d %d %v", n, chunk, add)
}
