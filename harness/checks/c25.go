package checks

import (
	"fmt"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"

	"unlynxverif/engine"
)

func init() {
	Props["C25"] = Info{Level: "model_checking", Rule: "every predicate of the grammar (comparisons of query and row tags, true/false, not/and/or up to depth 2, with minimal and with full parentheses) on every vector of tags over a small alphabet that includes tags that look like numbers or dates, through the real filter; compared with an independent evaluator. Every comparison of two operands, and all of them together, with up to 13 filtering attributes (52 in the thorough run). Every predicate of a list of invalid ones must leave the process alive and keep nothing, and end the real survey with an error on every placement of the data.",
		Assume: []string{"predicates compare tags and combine comparisons (no literals other than true and false)", "a predicate is judged when there is at least one row to filter"}}
	engine.Register(&engine.Scenario{Name: "c25-filter", Prop: "C25", Run: c25Filter})
	engine.Register(&engine.Scenario{Name: "c25-wide", Prop: "C25", Run: c25Wide})
	engine.Register(&engine.Scenario{Name: "c25-survey", Prop: "C25", Run: c25Survey})
	engine.Register(&engine.Scenario{Name: "c25-invalid", Prop: "C25", Run: c25Invalid})
}

// tagExpr is a predicate with its meaning.
type tagExpr struct {
	min, full string
	prec      int // 3 atom, 2 and, 1 or
	eval      func(v []string) bool
}

func tagAtoms(n int, consts bool) []tagExpr {
	var r []tagExpr
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			i, j := i, j
			e := fmt.Sprintf("v%d == v%d", i, j)
			r = append(r, tagExpr{e, "(" + e + ")", 3, func(v []string) bool { return v[i] == v[j] }})
			e = fmt.Sprintf("v%d != v%d", i, j)
			r = append(r, tagExpr{e, "(" + e + ")", 3, func(v []string) bool { return v[i] != v[j] }})
		}
	}
	if consts {
		r = append(r, tagExpr{"true", "(true)", 3, func([]string) bool { return true }}, tagExpr{"false", "(false)", 3, func([]string) bool { return false }})
	}
	return r
}

func paren(e tagExpr, prec int) string {
	if e.prec < prec {
		return "(" + e.min + ")"
	}
	return e.min
}

func tagNot(e tagExpr) tagExpr {
	return tagExpr{"!(" + e.min + ")", "(!" + e.full + ")", 3, func(v []string) bool { return !e.eval(v) }}
}

func tagBin(op int, a, b tagExpr) tagExpr {
	if op == 0 {
		return tagExpr{paren(a, 2) + " && " + paren(b, 3), "(" + a.full + " && " + b.full + ")", 2, func(v []string) bool { return a.eval(v) && b.eval(v) }}
	}
	return tagExpr{paren(a, 1) + " || " + paren(b, 2), "(" + a.full + " || " + b.full + ")", 1, func(v []string) bool { return a.eval(v) || b.eval(v) }}
}

// c25Rows builds all vectors of m tags (repeated so that duplicates exist),
// with group and aggregating attributes of varying numbers that identify the row.
func c25Rows(alpha []string, m int) ([]libunlynx.ProcessResponseDet, [][]string) {
	total := 1
	for i := 0; i < m; i++ {
		total *= len(alpha)
	}
	var rows []libunlynx.ProcessResponseDet
	var tags [][]string
	for rep := 0; rep < 2; rep++ {
		for k := 0; k < total; k++ {
			var t []string
			var gk []libunlynx.GroupingKey
			for i, q := 0, k; i < m; i, q = i+1, q/len(alpha) {
				t = append(t, alpha[q%len(alpha)])
				gk = append(gk, libunlynx.GroupingKey(alpha[q%len(alpha)]))
			}
			id := int64(rep*total + k)
			var g, a libunlynx.CipherVector
			for i := int64(0); i < 1+id%2; i++ {
				g = append(g, libunlynx.CipherText{K: pt(1000 + id), C: pt(i)})
			}
			for i := int64(0); i < id%3; i++ {
				a = append(a, libunlynx.CipherText{K: pt(2000 + id), C: pt(i)})
			}
			rows = append(rows, libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{GroupByEnc: g, AggregatingAttributes: a, WhereEnc: libunlynx.CipherVector{{K: pt(3000 + id), C: pt(0)}}},
				DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprintf("g%d", id)), DetTagWhere: gk})
			tags = append(tags, t)
		}
	}
	return rows, tags
}

func c25Check(x *engine.X, what string, rows []libunlynx.ProcessResponseDet, keep func(i int) bool, out []libunlynx.FilteredResponseDet) bool {
	var want []int
	for i := range rows {
		if keep(i) {
			want = append(want, i)
		}
	}
	if len(out) != len(want) {
		x.Failf("%s keeps %d rows of %d instead of %d", what, len(out), len(rows), len(want))
		return false
	}
	for k, i := range want {
		if out[k].DetTagGroupBy != rows[i].DetTagGroupBy {
			x.Failf("%s: kept row %d is %q instead of %q", what, k, out[k].DetTagGroupBy, rows[i].DetTagGroupBy)
			return false
		}
		if !sameCV(out[k].Fr.GroupByEnc, rows[i].PR.GroupByEnc) || !sameCV(out[k].Fr.AggregatingAttributes, rows[i].PR.AggregatingAttributes) {
			x.Failf("%s: the attributes of kept row %d changed", what, k)
			return false
		}
	}
	return true
}

func c25Filter(x *engine.X) {
	useToy(25)
	m := x.Int(1, 2, "where attributes")
	alphas := [][]string{{"1", "01", "a"}, {"", "1.0", "1"}, {"\x00", "\x00\xff", "true"}, {"2014-01-02", "2014-01-02 00:00:00", "v0"}}
	ai := x.Choose(len(alphas), "alphabet")
	alpha := alphas[ai]
	if !x.Thorough() && m == 2 {
		alpha = alpha[:2]
	}
	atoms := tagAtoms(2*m, true)
	small := atoms
	if m == 2 {
		// the third operand and the inner ones of deeper expressions
		small = []tagExpr{atoms[0], atoms[3], tagAtoms(4, false)[len(tagAtoms(4, false))-2], atoms[len(atoms)-1]}
	}
	first := atoms[x.Choose(len(atoms), "first atom")]
	rows, tags := c25Rows(alpha, m)
	before := make([]libunlynx.ProcessResponseDet, len(rows))
	for i := range rows {
		before[i] = libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{GroupByEnc: copyCV(rows[i].PR.GroupByEnc), AggregatingAttributes: copyCV(rows[i].PR.AggregatingAttributes), WhereEnc: copyCV(rows[i].PR.WhereEnc)}, DetTagGroupBy: rows[i].DetTagGroupBy, DetTagWhere: append([]libunlynx.GroupingKey{}, rows[i].DetTagWhere...)}
	}
	var exprs []tagExpr
	exprs = append(exprs, first, tagNot(first), tagNot(tagNot(first)))
	for op := 0; op < 2; op++ {
		for _, b := range atoms {
			e := tagBin(op, first, b)
			exprs = append(exprs, e, tagNot(e), tagBin(op, tagNot(first), b), tagBin(op, first, tagNot(b)))
			if !x.Thorough() && m == 2 && b.min != small[0].min && b.min != small[1].min && b.min != small[2].min {
				continue
			}
			for op2 := 0; op2 < 2; op2++ {
				for _, c := range small {
					exprs = append(exprs, tagBin(op2, e, c), tagBin(op2, c, e))
					if x.Thorough() || m == 1 {
						for _, d := range small {
							exprs = append(exprs, tagBin(op2, e, tagBin(1-op, c, d)))
						}
					}
				}
			}
		}
	}
	n := 0
	for k := 0; ; k++ {
		var q []libunlynx.WhereQueryAttributeTagged
		var qt []string
		r := k
		for i := 0; i < m; i++ {
			qt = append(qt, alpha[r%len(alpha)])
			q = append(q, libunlynx.WhereQueryAttributeTagged{Name: fmt.Sprintf("w%d", i), Value: libunlynx.GroupingKey(qt[i])})
			r /= len(alpha)
		}
		if r > 0 {
			break
		}
		for _, e := range exprs {
			for f, s := range []string{e.min, e.full} {
				if f == 1 && !x.Thorough() && m == 2 && n%2 == 1 {
					n++
					continue
				}
				n++
				out := servicesunlynx.FilterResponses(s, q, rows)
				if !c25Check(x, fmt.Sprintf("predicate %q with query tags %q", s, qt), rows, func(i int) bool {
					v := make([]string, 2*m)
					for j := 0; j < m; j++ {
						v[2*j], v[2*j+1] = qt[j], tags[i][j]
					}
					return e.eval(v)
				}, out) {
					return
				}
			}
		}
	}
	for i := range rows {
		if !samePR(rows[i].PR, before[i].PR) || fmt.Sprint(rows[i].DetTagWhere) != fmt.Sprint(before[i].DetTagWhere) || rows[i].DetTagGroupBy != before[i].DetTagGroupBy {
			x.Failf("filtering changed input row %d", i)
			return
		}
	}
	if !c25Check(x, "no predicate", rows, func(int) bool { return true }, servicesunlynx.FilterNone(rows)) {
		return
	}
	if len(servicesunlynx.FilterNone(nil)) != 0 || len(servicesunlynx.FilterResponses(first.min, nil, nil)) != 0 {
		x.Failf("filtering no rows gives rows")
	}
	x.Count("filter calls", n)
	x.Obs("m%d alphabet%d %s", m, ai, first.min)
}

// c25Wide: many filtering attributes; every pair of operands is compared once,
// and all of them together.
func c25Wide(x *engine.X) {
	useToy(28)
	max := 13
	if x.Thorough() {
		max = 52
	}
	m := x.Int(1, max, "where attributes")
	first := x.Int(0, 2*m-1, "first operand")
	// query tags and rows: row r agrees with the query (or with the attribute before) on some positions only
	tag := func(k int) libunlynx.GroupingKey { return libunlynx.GroupingKey(fmt.Sprintf("t%d", k)) }
	var q []libunlynx.WhereQueryAttributeTagged
	for i := 0; i < m; i++ {
		q = append(q, libunlynx.WhereQueryAttributeTagged{Name: fmt.Sprintf("w%d", i), Value: tag(i)})
	}
	var rows []libunlynx.ProcessResponseDet
	var vs [][]string
	for r := 0; r < m+4; r++ {
		var gk []libunlynx.GroupingKey
		var v []string
		for i := 0; i < m; i++ {
			t := tag(i) // all match
			switch {
			case r < m && i == r:
				t = tag((i + 1) % (m + 1)) // all but one
			case r == m+1:
				t = tag(i + 1)
			case r == m+2:
				t = tag(0)
			case r == m+3:
				t = tag(100 + i)
			}
			gk = append(gk, t)
			v = append(v, string(tag(i)), string(t))
		}
		rows = append(rows, libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{GroupByEnc: libunlynx.CipherVector{{K: pt(int64(r)), C: pt(1)}}, AggregatingAttributes: libunlynx.CipherVector{{K: pt(int64(r)), C: pt(2)}}},
			DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprintf("g%d", r)), DetTagWhere: gk})
		vs = append(vs, v)
	}
	check := func(pred string, eval func(v []string) bool) bool {
		return c25Check(x, fmt.Sprintf("%d where attributes, predicate %q", m, pred), rows, func(i int) bool { return eval(vs[i]) }, servicesunlynx.FilterResponses(pred, q, rows))
	}
	for j := 0; j < 2*m; j++ {
		if j == first {
			continue
		}
		j := j
		if !check(fmt.Sprintf("v%d == v%d", first, j), func(v []string) bool { return v[first] == v[j] }) || !check(fmt.Sprintf("v%d != v%d", j, first), func(v []string) bool { return v[first] != v[j] }) {
			return
		}
	}
	var and, or []string
	for j := 0; j < m; j++ {
		and = append(and, fmt.Sprintf("v%d == v%d", 2*j, 2*j+1))
		or = append(or, fmt.Sprintf("v%d != v%d", 2*j+1, 2*j))
	}
	all := func(v []string) bool {
		for j := 0; j < m; j++ {
			if v[2*j] != v[2*j+1] {
				return false
			}
		}
		return true
	}
	if check(strings.Join(and, " && "), all) {
		check(strings.Join(or, " || "), func(v []string) bool { return !all(v) })
	}
	x.Obs("m%d", m)
}

// badPredicates cannot be evaluated to true or false on rows with one (m=1) or
// two (m=2) filtering attributes.
var badPredicates = []string{"v0 ==", "== v0", "v0 == v9", "v0", "v0 + v1", "1", "1 + 2", "'a'", "v0 && v1", "!v0", "(v0 == v1", "v0 == v1)", "foo(v0)", "v0 > 3", "v0 == v1 && v0", "v0 == v1 || v9 == v0",
	"v0 == v1 AND v0 == v1", "v0 = v1", "v0 <> v1", "v0 == v1 &&", "w0 == w1", "-v0", "v0 ? 1 : 2", "v0 - v1", "\"", "'", "v0 == v1 ? 'y' : 'n'", "()"}

func c25Invalid(x *engine.X) {
	useToy(26)
	bad := badPredicates[x.Choose(len(badPredicates), "predicate")]
	m := x.Int(1, 2, "where attributes")
	// rows on which no comparison can hide the error by short circuit
	alpha := []string{"a", "b"}
	rows, _ := c25Rows(alpha, m)
	q := []libunlynx.WhereQueryAttributeTagged{{Name: "w0", Value: "a"}, {Name: "w1", Value: "b"}}[:m]
	order := x.Choose(2, "order")
	if order == 1 {
		for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	}
	out := servicesunlynx.FilterResponses(bad, q, rows)
	if len(out) > 0 {
		x.Failf("the predicate %q is neither true nor false, %d rows are kept", bad, len(out))
	}
	x.Obs("%s %d", strings.TrimSpace(bad), m)
}

// c25Survey: the querier of a real survey is told about a bad predicate,
// wherever the data is; with a good one the answer is right.
func c25Survey(x *engine.X) {
	useToy(27)
	n := x.Int(1, 3, "servers")
	m := x.Int(1, 2, "where attributes")
	place := x.Choose(1<<n-1, "servers with data") + 1
	at := x.Choose(n, "querier's server")
	bi := x.Choose(len(badPredicates)+2, "predicate")
	if !x.Thorough() && n == 3 && (m == 2 || at == 1) {
		return
	}
	q := svQuery{sum: names("s", 1), groupBy: names("g", 1), where: []svWhere{{"w1", 1}, {"w2", 2}}[:m]}
	if bi < 2 {
		q.pred, q.eval = "v0 == v1", func(v []string) bool { return v[0] == v[1] }
		if bi == 1 {
			q.pred, q.eval = "v0 != v1 || !(v0 != v1)", func(v []string) bool { return true }
		}
	} else {
		q.pred, q.eval = badPredicates[bi-2], nil
	}
	var dps []svDP
	for s := 0; s < n; s++ {
		if place>>s&1 == 1 {
			dps = append(dps, svDP{server: s, rep: 1, rows: []libunlynx.DpClearResponse{
				svRow([]int64{1}, s%2, []int64{1, 2}[:m], s%2, []int64{int64(3 + s)}, 1),
				svRow([]int64{2}, s%2, []int64{2, 2}[:m], s%2, []int64{int64(30 + s)}, 1)}})
		}
	}
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.FIFO = true
		if bi < 2 {
			c.whole(x, "survey", at, q, dps, false)
			return
		}
		sid, err := c.create(at, q, dps)
		if err != nil {
			return // told at creation
		}
		for i, d := range dps {
			if err := c.do("upload", c.upload(sid, q, d)); err != nil {
				x.Failf("upload %d (%v) fails: %v", i, d, err)
				return
			}
		}
		var r svResult
		call := c.start("results", c.results(at, sid, false, &r))
		if !c.await(time.Hour, call) {
			x.Failf("the predicate %q is neither true nor false, and the querier gets no reply at all, data %v", q.pred, dps)
			return
		}
		if call.result() == nil {
			x.Failf("the predicate %q is neither true nor false, and the querier gets %d groups without an error, data %v", q.pred, len(r.res.Results), dps)
		}
	})
	x.Obs("%d %d %d %d %s", n, m, place, at, q.pred)
}
