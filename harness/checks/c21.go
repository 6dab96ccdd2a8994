package checks

import (
	"math"

	libunlynxdiffprivacy "github.com/ldsec/unlynx/lib/differential_privacy"

	"unlynxverif/engine"
)

func init() {
	Props["C21"] = Info{Level: "model_checking", Rule: "every combination of a grid of list lengths, means, scales, quanta, scaling factors and limits through the real generator; the list is compared with the counts computed from the density, up to rounding of the density at a count boundary.",
		Assume: []string{"a deterministic function of its parameters: one execution per grid point decides it", "b > 0, scaling factor > 0, length >= 0"}}
	engine.Register(&engine.Scenario{Name: "c21-grid", Prop: "C21", Run: c21Grid})
}

func pickF(x *engine.X, label string, vs ...float64) float64 { return vs[x.Choose(len(vs), label)] }

func c21Grid(x *engine.X) {
	ns := []int64{0, 1, 2, 3, 7, 100, 501, 1000, 2500, 20000}
	means := []float64{0, 1, -2.5, 30}
	bs := []float64{0.01, 0.5, 1, 3, 100}
	qs := []float64{0, 0.005, 0.1, 1, 10}
	scales := []float64{1, 2, 10, 0.5}
	lims := []float64{0, 0.5, 1, 3, 60}
	if x.Thorough() {
		ns = append(ns, 4, 5, 6, 8, 20, 50, 5000)
		means = append(means, 0.5, 1000)
		bs = append(bs, 0.1, 2, 10, 1e6)
		qs = append(qs, 1e-4, 0.003, 0.37, 1e9)
		scales = append(scales, 3, 100, 0.1, 7)
		lims = append(lims, -1, 2, 10, 10.5)
	}
	n := ns[x.Choose(len(ns), "n")]
	mean, b := pickF(x, "mean", means...), pickF(x, "b", bs...)
	q, scale, lim := pickF(x, "quanta", qs...), pickF(x, "scale", scales...), pickF(x, "limit", lims...)
	var l []float64
	if scale == 1 && x.Bool("without scaling") {
		l = libunlynxdiffprivacy.GenerateNoiseValues(n, mean, b, q, lim)
	} else {
		l = libunlynxdiffprivacy.GenerateNoiseValuesScale(n, mean, b, q, scale, lim)
	}
	fail := func(f string, a ...interface{}) {
		x.Failf("n=%d mean=%v b=%v quanta=%v scale=%v limit=%v: "+f, append([]interface{}{n, mean, b, q, scale, lim}, a...)...)
	}
	if int64(len(l)) != n {
		fail("%d values", len(l))
		return
	}
	// values are k and -k for k = 0, 1, 2...
	pos, neg := map[int]int{}, map[int]int{}
	max := 0
	for _, v := range l {
		k := math.Round(math.Abs(v))
		if math.IsNaN(v) || math.Abs(math.Abs(v)-k) > 1e-9*(1+k) {
			fail("value %v", v)
			return
		}
		if v > 0.5 {
			pos[int(k)]++
		} else if v < -0.5 {
			neg[int(k)]++
		} else {
			pos[0]++
		}
		if int(k) > max {
			max = int(k)
		}
	}
	pdf := func(k int) float64 { return math.Exp(-math.Abs(float64(k)/scale-mean)/b) / (2 * b) }
	// the quantum: given, or such that the density up to the limit fills the list
	var quanta []float64
	if q != 0 {
		quanta = []float64{q}
	} else {
		tols := []float64{-1e-9, 1e-9}
		if scale == 1 || scale == 2 || scale == 0.5 {
			// the steps are exact: the limit itself is excluded
			tols = []float64{0}
		}
		for _, tol := range tols {
			sum := 0.0
			for k := 0; float64(k)/scale < lim+tol*(1+math.Abs(lim)); k++ {
				if k == 0 {
					sum = pdf(0)
				} else {
					sum += 2 * pdf(k)
				}
			}
			quanta = append(quanta, sum/float64(n))
		}
	}
	var why string
	ok := false
	for _, qq := range quanta {
		w := c21Counts(pos, neg, max, pdf, qq)
		if w == "" {
			ok = true
		} else {
			why = w
		}
	}
	if !ok && n > 0 {
		fail("%s", why)
	}
	x.Obs("max %d", max)
}

func c21Counts(pos, neg map[int]int, max int, pdf func(int) float64, q float64) string {
	for k := 0; k <= max; k++ {
		r := pdf(k) / q
		eps := 1e-6 * (1 + math.Abs(r))
		hi, lo := math.Ceil(r+eps), math.Ceil(r-eps)
		if hi < 1 || math.IsNaN(hi) {
			hi = 1
		}
		if lo < 1 || math.IsNaN(lo) {
			lo = 1
		}
		if q == 0 { // no quantum: any number
			hi, lo = math.Inf(1), 1
		}
		p, n := float64(pos[k]), float64(neg[k])
		if k == 0 {
			n = p
		}
		if p > hi || n > hi {
			return sprintf("%v values %d and %v values %d, at most %v expected", p, k, n, -k, hi)
		}
		if k < max && (p < lo || n < lo || p != n) {
			return sprintf("%v values %d and %v values %d, %v expected", p, k, n, -k, lo)
		}
		if k == max && math.Abs(p-n) > 1 {
			return sprintf("%v values %d and %v values %d", p, k, n, -k)
		}
	}
	return ""
}
