package checks

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/urfave/cli"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/encoding"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/log"
	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"

	"unlynxverif/cmdunlynx"
	"unlynxverif/engine"
)

func init() {
	Props["C22"] = Info{Level: "model_checking", Rule: "every token string up to a length, and every well-formed parameter with up to one (thorough: two) token edits, for each of the sum, where and groupBy parameters; every combination of the flags and of absent parameters; each run through the real main function with the network client recorded, and compared with an independent recogniser of the documented syntax.",
		Assume: []string{"blanks elsewhere than after a comma may be accepted or rejected (when accepted the translation must still be exact)", "the syntax of the predicate is checked by the servers"}}
	engine.Register(&engine.Scenario{Name: "c22-sum", Prop: "C22", Run: func(x *engine.X) { c22Param(x, 0) }})
	engine.Register(&engine.Scenario{Name: "c22-where", Prop: "C22", Run: func(x *engine.X) { c22Param(x, 1) }})
	engine.Register(&engine.Scenario{Name: "c22-groupby", Prop: "C22", Run: func(x *engine.X) { c22Param(x, 2) }})
	engine.Register(&engine.Scenario{Name: "c22-options", Prop: "C22", Run: c22Options})
	engine.Register(&engine.Scenario{Name: "c22-group-file", Prop: "C22", Run: c22File})
}

type cliQuery struct {
	sum, where, predicate, groupBy *string
	count, proofs, long            bool
}

type cliExit struct{ code int }

type cliOutcome struct {
	rejected bool
	why      string
	query    *servicesunlynx.SurveyCreationQuery
	results  *servicesunlynx.SurveyResultsQuery
	dst      []string
	other    []string
}

var c22Secrets []kyber.Scalar

func c22Toml(n int) string {
	var sb strings.Builder
	c22Secrets = nil
	for i := 0; i < n; i++ {
		s := libunlynx.SuiTe.Scalar().SetInt64(int64(1000 + 17*i))
		c22Secrets = append(c22Secrets, s)
		h, err := encoding.PointToStringHex(libunlynx.SuiTe, libunlynx.SuiTe.Point().Mul(s, nil))
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(&sb, "[[servers]]\n  Address = \"tls://127.0.0.1:%d\"\n  Suite = \"Ed25519\"\n  Public = \"%s\"\n  Description = \"s%d\"\n\n", 2000+2*i, h, i)
	}
	return sb.String()
}

// runCommand calls the real main function and records what reaches the network.
func runCommand(args []string, refuse bool) (o cliOutcome) {
	oldArgs, oldExit, oldErr, oldErrW := os.Args, cli.OsExiter, log.VerifExit, cli.ErrWriter
	cli.ErrWriter = io.Discard
	exit := func(c int) { panic(cliExit{c}) }
	os.Args = append([]string{"unlynx"}, args...)
	cli.OsExiter = exit
	log.VerifExit = exit
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	onet.VerifClient = func(dst *network.ServerIdentity, path string, buf []byte) ([]byte, error) {
		o.dst = append(o.dst, string(dst.Address))
		switch path {
		case "SurveyCreationQuery":
			if o.query != nil {
				o.other = append(o.other, path)
			}
			q := &servicesunlynx.SurveyCreationQuery{}
			if err := protobuf.DecodeWithConstructors(buf, q, network.DefaultConstructors(libunlynx.SuiTe)); err != nil {
				return nil, err
			}
			o.query = q
			if refuse {
				return nil, errors.New("refused")
			}
			return protobuf.Encode(&servicesunlynx.ServiceState{SurveyID: "the-survey"})
		case "SurveyResultsQuery":
			if o.results != nil {
				o.other = append(o.other, path)
			}
			q := &servicesunlynx.SurveyResultsQuery{}
			if err := protobuf.DecodeWithConstructors(buf, q, network.DefaultConstructors(libunlynx.SuiTe)); err != nil {
				return nil, err
			}
			o.results = q
			return protobuf.Encode(&servicesunlynx.ServiceResult{})
		}
		o.other = append(o.other, path)
		return nil, errors.New("unknown message")
	}
	defer func() {
		os.Stdout, os.Stderr = so, se
		null.Close()
		os.Args, cli.OsExiter, log.VerifExit, cli.ErrWriter = oldArgs, oldExit, oldErr, oldErrW
		onet.VerifClient = nil
		if r := recover(); r != nil {
			e, ok := r.(cliExit)
			if !ok {
				panic(r)
			}
			if e.code != 0 {
				o.rejected = true
				o.why = fmt.Sprintf("exit code %d", e.code)
			}
		}
	}()
	cmdunlynx.VerifMain()
	return o
}

func (q cliQuery) args(file string) []string {
	opt := func(l, s string) string {
		if q.long {
			return "--" + l
		}
		return "-" + s
	}
	a := []string{"run", opt("file", "f"), file}
	if q.proofs {
		a = append(a, "--proofs")
	}
	if q.count {
		a = append(a, opt("count", "c"))
	}
	add := func(l, s string, v *string) {
		if v != nil {
			a = append(a, opt(l, s), *v)
		}
	}
	add("sum", "s", q.sum)
	add("where", "w", q.where)
	add("predicate", "p", q.predicate)
	add("groupBy", "g", q.groupBy)
	return a
}

type cliWhere struct {
	name string
	v    int64
}

// listOf recognises {t, t, ...}; strict is false when blanks stand elsewhere
// than after a comma.
func listOf(s string) (toks []string, strict, ok bool) {
	strict = true
	t := strings.TrimSpace(s)
	if t != s {
		strict = false
	}
	if len(t) < 2 || t[0] != '{' || t[len(t)-1] != '}' {
		return nil, strict, false
	}
	for i, f := range strings.Split(t[1:len(t)-1], ",") {
		w := strings.TrimLeft(f, " ")
		if i == 0 && w != f || strings.TrimSpace(w) != w {
			strict = false
		}
		toks = append(toks, strings.TrimSpace(w))
	}
	return toks, strict, true
}

var reS, reG, reW, reN = regexp.MustCompile(`\As[0-9]+\z`), regexp.MustCompile(`\Ag[0-9]+\z`), regexp.MustCompile(`\Aw[0-9]+\z`), regexp.MustCompile(`\A[0-9]+\z`)

const (
	must   = iota // has to be accepted
	mustnt        // has to be rejected
	may           // unspecified, but exact when accepted
)

func (q cliQuery) parse() (verdict int, sum []string, where []cliWhere, groupBy []string, why string) {
	get := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	bad := func(f string, a ...interface{}) (int, []string, []cliWhere, []string, string) {
		return mustnt, nil, nil, nil, fmt.Sprintf(f, a...)
	}
	verdict = must
	sum, strict, ok := listOf(get(q.sum))
	if !ok {
		return bad("sum is no list")
	}
	if !strict {
		verdict = may
	}
	hasCount := false
	for _, s := range sum {
		if s == "count" {
			hasCount = true
		} else if !reS.MatchString(s) {
			return bad("%q is no attribute to sum", s)
		}
	}
	if q.count && !hasCount {
		return bad("count without a count attribute")
	}
	if hasCount && !q.count {
		verdict = may
	}
	if (get(q.where) == "") != (get(q.predicate) == "") {
		return bad("where and predicate do not go together")
	}
	if w := get(q.where); w != "" {
		toks, strict, ok := listOf(w)
		if !ok {
			return bad("where is no list")
		}
		if !strict {
			verdict = may
		}
		if len(toks) == 1 && toks[0] == "" {
			toks = nil
			verdict = may
		}
		if len(toks)%2 != 0 {
			return bad("where attribute without value")
		}
		for i := 0; i < len(toks); i += 2 {
			if !reW.MatchString(toks[i]) || !reN.MatchString(toks[i+1]) {
				return bad("%q,%q is no where attribute with a value", toks[i], toks[i+1])
			}
			v, err := strconv.ParseInt(toks[i+1], 10, 64)
			if err != nil {
				return bad("value out of range")
			}
			where = append(where, cliWhere{toks[i], v})
		}
	}
	if g := get(q.groupBy); g != "" {
		groupBy, strict, ok = listOf(g)
		if !ok {
			return bad("groupBy is no list")
		}
		if !strict {
			verdict = may
		}
		for _, s := range groupBy {
			if !reG.MatchString(s) {
				return bad("%q is no grouping attribute", s)
			}
		}
	}
	return verdict, sum, where, groupBy, ""
}

func c22Run(x *engine.X, q cliQuery, servers int) {
	useReal(7)
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "group.toml")
	if err := os.WriteFile(f, []byte(c22Toml(servers)), 0600); err != nil {
		panic(err)
	}
	args := q.args(f)
	o := runCommand(args, false)
	verdict, sum, where, groupBy, why := q.parse()
	shown := strings.Join(args[3:], " ")
	x.Obs(fmt.Sprint(verdict, o.rejected, o.query != nil))
	accepted := o.query != nil
	if accepted && o.rejected {
		x.Failf("`%s`: a query was sent although the command failed (%s)", shown, o.why)
		return
	}
	if !accepted && !o.rejected {
		x.Failf("`%s`: neither an error nor a query", shown)
		return
	}
	switch {
	case verdict == must && !accepted:
		x.Failf("`%s`: a well-formed query is rejected (%s)", shown, o.why)
		return
	case verdict == mustnt && accepted:
		x.Failf("`%s`: a malformed query (%s) is accepted: sum %q count %v where %d groupBy %q", shown, why, o.query.Sum, o.query.Count, len(o.query.Where), o.query.GroupBy)
		return
	}
	if !accepted {
		return
	}
	g := o.query
	if strings.Join(g.Sum, "|") != strings.Join(sum, "|") || len(g.Sum) != len(sum) {
		x.Failf("`%s`: sum became %q", shown, g.Sum)
	}
	if strings.Join(g.GroupBy, "|") != strings.Join(groupBy, "|") || len(g.GroupBy) != len(groupBy) {
		x.Failf("`%s`: groupBy became %q", shown, g.GroupBy)
	}
	if g.Count != q.count {
		x.Failf("`%s`: count became %v", shown, g.Count)
	}
	if g.Proofs != q.proofs {
		x.Failf("`%s`: proofs became %v", shown, g.Proofs)
	}
	p := ""
	if q.predicate != nil {
		p = *q.predicate
	}
	if g.Predicate != p {
		x.Failf("`%s`: predicate became %q", shown, g.Predicate)
	}
	if len(g.Where) != len(where) {
		x.Failf("`%s`: %d where attributes, expected %d", shown, len(g.Where), len(where))
		return
	}
	sec := libunlynx.SuiTe.Scalar().Zero()
	for _, s := range c22Secrets {
		sec.Add(sec, s)
	}
	for i, w := range where {
		if g.Where[i].Name != w.name {
			x.Failf("`%s`: where attribute %d became %q", shown, i, g.Where[i].Name)
		}
		if !encodes(sec, g.Where[i].Value, w.v) {
			x.Failf("`%s`: the value of %s is not encrypted as %d under the collective key", shown, w.name, w.v)
		}
	}
	if len(g.Roster.List) != servers {
		x.Failf("the query names %d servers of %d", len(g.Roster.List), servers)
	}
	for _, s := range g.Roster.List {
		if g.MapDPs[s.String()] != 1 {
			x.Failf("server %v waits for %d data providers", s, g.MapDPs[s.String()])
		}
	}
	if o.results == nil || o.results.SurveyID != "the-survey" || len(o.other) != 0 {
		x.Failf("`%s`: the results of the created survey are not asked for (%v, %v)", shown, o.results, o.other)
	}
	for _, d := range o.dst {
		if d != "tls://127.0.0.1:2000" {
			x.Failf("a message was sent to %s", d)
		}
	}
}

var c22Alphabet = [][]string{
	{"{", "}", ",", ", ", "s1", "s20", "count", "g1", "7", "s", "x", " "},
	{"{", "}", ",", ", ", "w1", "w20", "0", "27", "9223372036854775807", "99999999999999999999", "-1", "w", "s1", " "},
	{"{", "}", ",", ", ", "g1", "g20", "s1", "7", "g", "x", " "},
}

func c22Param(x *engine.X, which int) {
	al := c22Alphabet[which]
	var toks []string
	if x.Choose(2, "kind") == 0 {
		n := x.Int(0, []int{4, 3, 4}[which]+boolInt(x.Thorough()), "tokens")
		for i := 0; i < n; i++ {
			toks = append(toks, al[x.Choose(len(al), "token")])
		}
	} else {
		n := x.Int(1, 3, "attributes")
		sep := x.Choose(2, "separator")
		add := func(i int, ts ...string) {
			for j, t := range ts {
				if i+j > 0 {
					toks = append(toks, []string{",", ", "}[sep])
				}
				toks = append(toks, t)
			}
		}
		toks = append(toks, "{")
		for i := 0; i < n; i++ {
			switch which {
			case 0:
				add(i, []string{"s1", "count", "s20"}[i])
			case 1:
				add(i, []string{"w1", "w20", "w1"}[i], []string{"27", "9223372036854775807", "0"}[i])
			case 2:
				add(i, []string{"g20", "g1", "g1"}[i])
			}
		}
		toks = append(toks, "}")
		edits := x.Int(0, 1, "edits")
		if x.Thorough() && edits == 1 {
			edits = x.Int(1, 2, "more edits")
		}
		for e := 0; e < edits; e++ {
			i := x.Choose(len(toks)+1, "where")
			k := x.Choose(len(al)+1, "edit")
			if i < len(toks) && x.Bool("replace") {
				rest := append([]string{}, toks[i+1:]...)
				toks = toks[:i]
				if k < len(al) {
					toks = append(toks, al[k])
				}
				toks = append(toks, rest...)
			} else if k < len(al) {
				toks = append(toks[:i:i], append([]string{al[k]}, toks[i:]...)...)
			}
		}
	}
	s := strings.Join(toks, "")
	sum, where, pred, group := "{s1, s2}", "{w1, 1}", "v0 == v1", "{g1}"
	q := cliQuery{sum: &sum, where: &where, predicate: &pred, groupBy: &group}
	switch which {
	case 0:
		sum = s
		q.count = x.Bool("count")
	case 1:
		where = s
	case 2:
		group = s
	}
	c22Run(x, q, 1)
}

func c22Options(x *engine.X) {
	pick := func(label string, vs ...string) *string {
		i := x.Choose(len(vs)+1, label)
		if i == len(vs) {
			return nil
		}
		return &vs[i]
	}
	q := cliQuery{
		sum:       pick("sum", "{s1,s2}", "{s1, count}", ""),
		where:     pick("where", "{w1, 3, w2, 27}", "{w2, 5}", ""),
		predicate: pick("predicate", "(v0 == v1 || v2 == v3) && v4 == v5", "v0==v1", "  v0 != v1 ", ""),
		groupBy:   pick("groupBy", "{g1, g2, g3}", ""),
	}
	q.count = x.Bool("count")
	q.proofs = x.Bool("proofs")
	q.long = x.Bool("long options")
	c22Run(x, q, x.Int(1, 3, "servers"))
}

func c22File(x *engine.X) {
	useReal(7)
	dir := scratch(x)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "group.toml")
	n := x.Int(1, 2, "servers")
	full := c22Toml(n)
	kind := x.Choose(4, "file")
	switch kind {
	case 0:
		os.WriteFile(f, []byte(full), 0600)
	case 1: // missing
	case 2:
		os.WriteFile(f, nil, 0600)
	case 3:
		os.WriteFile(f, []byte(strings.Replace(full, "Public = \"", "Public = \"zz", 1)), 0600)
	}
	refuse := x.Bool("server refuses")
	s, g := "{s1}", "{g1}"
	o := runCommand(cliQuery{sum: &s, groupBy: &g}.args(f), refuse)
	if kind == 0 && !refuse && (o.rejected || o.query == nil) {
		x.Failf("the query is not sent with a valid group file")
	}
	if kind != 0 && o.query != nil {
		x.Failf("a query is sent without a valid group file")
	}
	if (kind != 0 || refuse) && !o.rejected {
		x.Failf("the command reports success although it could not ask its query")
	}
	if refuse && o.results != nil {
		x.Failf("the results of a refused survey are asked for")
	}
}
