package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"

	"unlynxverif/cluster"
	"unlynxverif/engine"
)

// svWhere is a filtering attribute of a query with the value asked for.
type svWhere struct {
	name string
	val  int64
}

// svQuery is a query with its meaning.
type svQuery struct {
	sum, groupBy []string
	count        bool
	where        []svWhere
	pred         string
	eval         func(v []string) bool
	proofs       bool
	servers      []int // the roster (all servers if nil)
}

// svDP is the upload of one data provider to one server.
type svDP struct {
	server int
	rows   []libunlynx.DpClearResponse
	rep    int
}

func (d svDP) String() string {
	var s []string
	for _, r := range d.rows {
		s = append(s, fmt.Sprintf("{g%v/%v w%v/%v s%v/%v}", r.GroupByClear, r.GroupByEnc, r.WhereClear, r.WhereEnc, r.AggregatingAttributesClear, r.AggregatingAttributesEnc))
	}
	return fmt.Sprintf("dp@s%d x%d %s", d.server, d.rep, strings.Join(s, ""))
}

func (q svQuery) String() string {
	return fmt.Sprintf("sum %v group %v where %v %q proofs %v", q.sum, q.groupBy, q.where, q.pred, q.proofs)
}

func valueOf(n string, a, b map[string]int64) int64 {
	if v, ok := a[n]; ok {
		return v
	}
	return b[n]
}

// answer is the plaintext evaluation of the query: sums per group.
func (q svQuery) answer(dps []svDP) map[string]string {
	sums := map[string][]int64{}
	for _, d := range dps {
		for _, r := range d.rows {
			var v []string
			for _, w := range q.where {
				v = append(v, fmt.Sprint(w.val), fmt.Sprint(valueOf(w.name, r.WhereEnc, r.WhereClear)))
			}
			if q.eval != nil && !q.eval(v) {
				continue
			}
			g := []int64{}
			for _, n := range q.groupBy {
				g = append(g, valueOf(n, r.GroupByEnc, r.GroupByClear))
			}
			k := fmt.Sprint(g)
			if sums[k] == nil {
				sums[k] = make([]int64, len(q.sum))
			}
			for i, n := range q.sum {
				if n == "count" && q.count {
					sums[k][i] += int64(d.rep)
				} else {
					sums[k][i] += int64(d.rep) * valueOf(n, r.AggregatingAttributesEnc, r.AggregatingAttributesClear)
				}
			}
		}
	}
	res := map[string]string{}
	for k, s := range sums {
		res[k] = fmt.Sprint(s)
	}
	return res
}

func answerString(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// svc is a cluster with the unlynx service and its clients.
type svc struct {
	*cluster.Cluster
	srv []*servicesunlynx.Service
	mu  sync.Mutex
}

// svCluster starts n servers; clients reach their handlers directly, with the
// messages encoded and decoded as on the network.
func svCluster(x *engine.X, n int, body func(c *svc)) {
	inCluster(x, n, func(c *cluster.Cluster) {
		s := &svc{Cluster: c}
		for _, v := range c.Servers {
			s.srv = append(s.srv, v.Service(servicesunlynx.ServiceName).(*servicesunlynx.Service))
		}
		onet.VerifClient = func(dst *network.ServerIdentity, path string, buf []byte) ([]byte, error) {
			for i, v := range c.Servers {
				if v.ServerIdentity.Address == dst.Address {
					r, _, err := s.srv[i].ProcessClientRequest(nil, path, buf)
					return r, err
				}
			}
			return nil, fmt.Errorf("no server %v", dst)
		}
		defer func() { onet.VerifClient = nil }()
		body(s)
	})
}

// pending is a client call in progress.
type svCall struct {
	mu   sync.Mutex
	done bool
	err  error
}

func (c *svCall) finished() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.done }
func (c *svCall) result() error  { c.mu.Lock(); defer c.mu.Unlock(); return c.err }

// start runs f as a client would, until it waits for something; a panic in the handler is an error for the
// client (the web server recovers it) and is reported as a violation.
func (s *svc) start(what string, f func() error) *svCall {
	c := &svCall{}
	go func() {
		var err error
		defer func() {
			if r := recover(); r != nil {
				s.X.FailKey(s.X.Scenario+":panic", "%s: the server panics: %v", what, r)
				err = fmt.Errorf("panic: %v", r)
			}
			c.mu.Lock()
			c.done, c.err = true, err
			c.mu.Unlock()
			s.Wake()
		}()
		err = f()
	}()
	synctest.Wait()
	return c
}

// await delivers messages until all calls are finished.
func (s *svc) await(max time.Duration, cs ...*svCall) bool {
	return s.Run(func() bool {
		for _, c := range cs {
			if !c.finished() {
				return false
			}
		}
		return true
	}, max)
}

func (s *svc) do(what string, f func() error) error {
	c := s.start(what, f)
	if !s.await(time.Hour, c) {
		return fmt.Errorf("no reply")
	}
	return c.result()
}

// client of one server.
func (s *svc) client(server int, id string) *servicesunlynx.API {
	return servicesunlynx.NewUnLynxClient(s.Servers[server].ServerIdentity, id)
}

// roster of a query.
func (s *svc) roster(q svQuery) *onet.Roster {
	if q.servers == nil {
		return s.Roster
	}
	var l []*network.ServerIdentity
	for _, i := range q.servers {
		l = append(l, s.Servers[i].ServerIdentity)
	}
	return onet.NewRoster(l)
}

// create asks server `at` to create the survey.
func (s *svc) create(at int, q svQuery, dps []svDP) (servicesunlynx.SurveyID, error) {
	var sid servicesunlynx.SurveyID
	err := s.do("survey creation", s.creation(at, q, dps, &sid))
	return sid, err
}

func (s *svc) creation(at int, q svQuery, dps []svDP, sid *servicesunlynx.SurveyID) func() error {
	ro := s.roster(q)
	m := map[string]int64{}
	for _, d := range dps {
		m[s.Servers[d.server].ServerIdentity.String()]++
	}
	var w []libunlynx.WhereQueryAttribute
	for _, e := range q.where {
		w = append(w, libunlynx.WhereQueryAttribute{Name: e.name, Value: *libunlynx.EncryptInt(ro.Aggregate, e.val)})
	}
	return func() error {
		id, err := s.client(at, "q").SendSurveyCreationQuery(ro, servicesunlynx.SurveyID(""), nil, m, q.proofs, false, q.sum, q.count, w, q.pred, q.groupBy)
		if err == nil {
			*sid = *id
		}
		return err
	}
}

// upload sends the data of one provider.
func (s *svc) upload(sid servicesunlynx.SurveyID, q svQuery, d svDP) func() error {
	return func() error {
		return s.client(d.server, "dp").SendSurveyResponseQuery(sid, d.rows, s.roster(q).Aggregate, d.rep, q.count)
	}
}

// svResult is what a querier gets.
type svResult struct {
	priv kyber.Scalar
	res  servicesunlynx.ServiceResult
	api  bool
	grp  *[][]int64
	aggr *[][]int64
}

// results asks for the answer, through the API's decryption or with an own key.
func (s *svc) results(at int, sid servicesunlynx.SurveyID, api bool, out *svResult) func() error {
	return func() error {
		out.api = api
		if api {
			var err error
			out.grp, out.aggr, err = s.client(at, "q").SendSurveyResultsQuery(sid)
			return err
		}
		priv, pub := libunlynx.GenKey()
		out.priv = priv
		return onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(s.Servers[at].ServerIdentity, &servicesunlynx.SurveyResultsQuery{SurveyID: sid, ClientPublic: pub}, &out.res)
	}
}

var decTables sync.Map

// smallValue decodes a point to the integer in [-3000, 20000] that it encodes.
func smallValue(p kyber.Point) (int64, bool) {
	key := libunlynx.SuiTe.String()
	t, ok := decTables.Load(key)
	if !ok {
		m := map[string]int64{}
		q := libunlynx.SuiTe.Point().Null()
		for i := int64(0); i <= 20000; i++ {
			m[q.String()] = i
			if i > 0 && i <= 3000 {
				m[libunlynx.SuiTe.Point().Neg(q).String()] = -i
			}
			q.Add(q, libunlynx.SuiTe.Point().Base())
		}
		t = m
		decTables.Store(key, m)
	}
	v, ok := t.(map[string]int64)[p.String()]
	return v, ok
}

// decode gives the answer as sums per group; dup reports groups given twice.
func (r *svResult) decode() (map[string]string, error) {
	m := map[string]string{}
	add := func(g, a []int64) error {
		k := fmt.Sprint(g)
		if _, ok := m[k]; ok {
			return fmt.Errorf("group %s is given twice", k)
		}
		m[k] = fmt.Sprint(a)
		return nil
	}
	if r.api {
		if len(*r.grp) != len(*r.aggr) {
			return nil, fmt.Errorf("%d groups and %d results", len(*r.grp), len(*r.aggr))
		}
		for i := range *r.grp {
			if err := add(append([]int64{}, (*r.grp)[i]...), append([]int64{}, (*r.aggr)[i]...)); err != nil {
				return nil, err
			}
		}
		return m, nil
	}
	dec := func(cv libunlynx.CipherVector) ([]int64, error) {
		v := []int64{}
		for _, e := range cv {
			i, ok := int64(0), false
			if libunlynx.SuiTe == toySuite {
				i, ok = toySigned(r.priv, e), true
			} else {
				i, ok = smallValue(plainPoint(r.priv, e))
			}
			if !ok {
				return nil, fmt.Errorf("a ciphertext does not decrypt")
			}
			v = append(v, i)
		}
		return v, nil
	}
	for _, f := range r.res.Results {
		g, err := dec(f.GroupByEnc)
		if err != nil {
			return nil, err
		}
		a, err := dec(f.AggregatingAttributes)
		if err != nil {
			return nil, err
		}
		if err := add(g, a); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// compare checks an answer against the plaintext evaluation.
func (r *svResult) compare(x *engine.X, what string, q svQuery, dps []svDP) bool {
	got, err := r.decode()
	if err != nil {
		x.Failf("%s: %v, query %v, data %v", what, err, q, dps)
		return false
	}
	want := q.answer(dps)
	if answerString(got) != answerString(want) {
		x.Failf("%s: the answer is %s instead of %s, query %v, data %v", what, answerString(got), answerString(want), q, dps)
		return false
	}
	return true
}

// whole runs one survey from creation to answer, with sequential uploads.
func (s *svc) whole(x *engine.X, what string, at int, q svQuery, dps []svDP, api bool) bool {
	sid, err := s.create(at, q, dps)
	if err != nil {
		x.Failf("%s: the survey cannot be created: %v", what, err)
		return false
	}
	for i, d := range dps {
		if err := s.do("upload", s.upload(sid, q, d)); err != nil {
			x.Failf("%s: upload %d (%v) fails: %v", what, i, d, err)
			return false
		}
	}
	var r svResult
	if err := s.do("results", s.results(at, sid, api, &r)); err != nil {
		x.Failf("%s: no answer: %v; query %v, data %v", what, err, q, dps)
		return false
	}
	return r.compare(x, what, q, dps)
}

// where clauses used by the surveys: predicate and meaning over v0..v(2n-1).
func eqPred(n int) (string, func(v []string) bool) {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, fmt.Sprintf("v%d == v%d", 2*i, 2*i+1))
	}
	if n == 0 {
		return "", nil
	}
	return strings.Join(p, " && "), func(v []string) bool {
		for i := 0; i < n; i++ {
			if v[2*i] != v[2*i+1] {
				return false
			}
		}
		return true
	}
}

// svRow builds a row; the masks tell which attributes are encrypted (bit i of
// enc: attribute i).
func svRow(g []int64, genc int, w []int64, wenc int, a []int64, aenc int) libunlynx.DpClearResponse {
	split := func(pre string, v []int64, enc int) (c, e map[string]int64) {
		c, e = map[string]int64{}, map[string]int64{}
		for i, x := range v {
			if enc>>i&1 == 1 {
				e[sprintf("%s%d", pre, i+1)] = x
			} else {
				c[sprintf("%s%d", pre, i+1)] = x
			}
		}
		return
	}
	r := libunlynx.DpClearResponse{}
	r.GroupByClear, r.GroupByEnc = split("g", g, genc)
	r.WhereClear, r.WhereEnc = split("w", w, wenc)
	r.AggregatingAttributesClear, r.AggregatingAttributesEnc = split("s", a, aenc)
	return r
}

func names(pre string, n int) []string {
	s := []string{}
	for i := 1; i <= n; i++ {
		s = append(s, sprintf("%s%d", pre, i))
	}
	return s
}
