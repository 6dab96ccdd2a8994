// Package cluster runs real onet/unlynx servers inside a virtual-time bubble
// with every network message delivered by the explorer.
package cluster

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"

	libunlynx "github.com/ldsec/unlynx/lib"

	"unlynxverif/engine"
	"unlynxverif/verifreset"
	"unlynxverif/vsched"
)

// T is the test of the running binary (synctest needs one).
var T *testing.T

type pend struct {
	from, to string
	name     string
	seq      int
	epoch    int
	deliver  func() error
}

// Net is the controlled network of one execution.
type Net struct {
	x       *engine.X
	mu      sync.Mutex
	pending []*pend
	seqs    map[string]int
	hold    bool
	alias   map[string]string
	Dropped int
	Sent    int
	// DropChoice lets the explorer drop messages (bounded by deviations).
	DropChoice bool
	// DropBudget bounds the number of dropped messages.
	DropBudget int
	// Filter limits which messages are under control; others are delivered at once.
	Filter func(name string) bool
	Trace  []string
	// FIFO delivers messages in the order in which they were sent, without asking.
	FIFO bool
	// Demote delivers in the order of sending, except that the explorer may, at
	// any delivery and at the cost of one deviation, put the link that is next
	// behind all others (its messages then only arrive when nothing else can).
	Demote bool
	// Prompt makes Run return as soon as it is done, with the messages that
	// are still on their way (otherwise they are all delivered before).
	Prompt bool
	wake   chan struct{}
	rank   map[string]int
	nrank  int
	// epoch counts the quiescent points: messages sent between two of them are
	// ordered by link, whatever order the goroutines ran in.
	epoch int
	// Eager selects messages that are delivered, in the order of sending, as
	// soon as they are at the head of their link (with Demote).
	Eager func(name string) bool
	// stmts: instrumented goroutines are scheduled together with the messages.
	stmts bool
	// DropMatch limits which messages may be dropped (nil: all).
	DropMatch func(key string) bool
}

var (
	netMu sync.Mutex
	cur   *Net
)

func init() {
	onet.VerifNoWS = true
	network.VerifSend = func(from, to network.Address, msg network.Message, deliver func() error) bool {
		netMu.Lock()
		n := cur
		netMu.Unlock()
		if n == nil {
			return false
		}
		return n.send(string(from), string(to), msg, deliver)
	}
}

func msgName(m network.Message) string {
	t := reflect.TypeOf(m)
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if om, ok := m.(*onet.OverlayMsg); ok {
		switch {
		case om.RequestTree != nil, om.ResponseTree != nil, om.RequestRoster != nil, om.Roster != nil, om.TreeMarshal != nil:
			return "infra"
		}
		return "OverlayMsg"
	}
	if t == nil {
		return "nil"
	}
	return t.Name()
}

func (n *Net) send(from, to string, msg network.Message, deliver func() error) bool {
	name := msgName(msg)
	n.mu.Lock()
	if !n.hold || name == "infra" || name == "ServerIdentity" || name == "ConfigMsg" || strings.Contains(name, "Tree") || strings.Contains(name, "Roster") || (n.Filter != nil && !n.Filter(name)) {
		n.mu.Unlock()
		return false
	}
	defer n.mu.Unlock()
	l := from + ">" + to
	n.seqs[l]++
	n.Sent++
	n.pending = append(n.pending, &pend{from: from, to: to, name: name, seq: n.seqs[l], epoch: n.epoch, deliver: deliver})
	if n.wake != nil {
		select {
		case n.wake <- struct{}{}:
		default:
		}
	}
	return true
}

func (n *Net) al(a string) string {
	if s, ok := n.alias[a]; ok {
		return s
	}
	return a
}

// heads returns the first pending message of every link.
func (n *Net) heads() []*pend {
	n.mu.Lock()
	defer n.mu.Unlock()
	first := map[string]*pend{}
	for _, p := range n.pending {
		l := p.from + ">" + p.to
		if q, ok := first[l]; !ok || p.seq < q.seq {
			first[l] = p
		}
	}
	var r []*pend
	for _, p := range first {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool {
		return n.al(r[i].from)+">"+n.al(r[i].to) < n.al(r[j].from)+">"+n.al(r[j].to)
	})
	return r
}

func (n *Net) take(p *pend) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.epoch++
	for i, q := range n.pending {
		if q == p {
			n.pending = append(n.pending[:i:i], n.pending[i+1:]...)
			return
		}
	}
}

// Hold starts controlling messages.
func (n *Net) Hold() { n.mu.Lock(); n.hold = true; n.mu.Unlock() }

// Free delivers everything immediately from now on.
func (n *Net) Free() {
	n.mu.Lock()
	n.hold = false
	ps := n.pending
	n.pending = nil
	n.mu.Unlock()
	for _, p := range ps {
		p.deliver()
	}
}

// Step delivers one message chosen by the explorer; false if none is pending.
func (n *Net) Step() bool {
	if n.stmts && vsched.Active() {
		return n.stepStmts()
	}
	if n.FIFO {
		return n.StepFIFO()
	}
	if n.Demote {
		return n.stepDemote()
	}
	synctest.Wait()
	hs := n.heads()
	if len(hs) == 0 {
		return false
	}
	var alts []engine.Alt
	for _, p := range hs {
		alts = append(alts, engine.Alt{Key: fmt.Sprintf("%s>%s#%d", n.al(p.from), n.al(p.to), p.seq), Obj: n.al(p.to)})
	}
	c := 0
	if len(alts) > 1 {
		c = n.x.Sched(alts, "deliver")
	} else {
		c = n.x.Sched(alts, "deliver")
	}
	if c >= len(hs) {
		return false
	}
	p := hs[c]
	n.take(p)
	if n.DropChoice && n.Dropped < n.DropBudget {
		if n.x.Deviate(2, "drop "+alts[c].Key) == 1 {
			n.Dropped++
			n.Trace = append(n.Trace, "drop "+alts[c].Key)
			n.x.State(strings.Join(n.Trace, ","))
			return true
		}
	}
	n.Trace = append(n.Trace, alts[c].Key)
	n.x.State(n.canon())
	p.deliver()
	return true
}

// canon is the Mazurkiewicz-canonical form of the delivery history: per
// destination, the order in which it received its messages.
func (n *Net) canon() string {
	per := map[string][]string{}
	for _, t := range n.Trace {
		i := strings.IndexByte(t, '>')
		j := strings.LastIndexByte(t, '#')
		per[t[i+1:j]] = append(per[t[i+1:j]], t)
	}
	var ks []string
	for k := range per {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s:%s;", k, strings.Join(per[k], ","))
	}
	return sb.String()
}

// stepDemote is Step with priority-based delays.
func (n *Net) stepDemote() bool {
	synctest.Wait()
	for {
		hs := n.heads()
		if len(hs) == 0 {
			return false
		}
		if n.rank == nil {
			n.rank = map[string]int{}
		}
		if n.Eager != nil {
			var e *pend
			for _, p := range hs {
				if n.Eager(p.name) && (e == nil || p.epoch < e.epoch) {
					e = p
				}
			}
			if e != nil {
				n.take(e)
				e.deliver()
				return true
			}
		}
		link := func(p *pend) string { return n.al(p.from) + ">" + n.al(p.to) }
		sort.SliceStable(hs, func(i, j int) bool {
			a, b := n.rank[link(hs[i])], n.rank[link(hs[j])]
			if a != b {
				return a < b
			}
			return hs[i].epoch < hs[j].epoch
		})
		p := hs[0]
		key := fmt.Sprintf("%s#%d", link(p), p.seq)
		if len(hs) > 1 && n.x.Deviate(2, "delay "+key) == 1 {
			n.nrank++
			n.rank[link(p)] = n.nrank
			continue
		}
		n.take(p)
		if n.drop(p) {
			return true
		}
		n.Trace = append(n.Trace, key)
		n.x.State(n.canon())
		p.deliver()
		return true
	}
}

// Stmts schedules the goroutines of the code under test, at the statements
// accepted by filter, together with the messages: by default a goroutine goes
// on as far as it can, then the next one, then a message is delivered in the
// order of sending. At each of these steps the explorer may, at the cost of one
// deviation, put what is next (goroutine or link) behind everything else.
func (n *Net) Stmts(filter func(string) bool) {
	n.stmts = true
	vsched.Start(false, filter)
	vsched.Limit(1)
}

// NoStmts lets all goroutines run freely again.
func (n *Net) NoStmts() {
	n.stmts = false
	vsched.Stop()
}

// AllStmts is Stmts with every passage of a statement, every lock and every
// operation of the toy group.
func (n *Net) AllStmts(filter func(string) bool) {
	n.Stmts(filter)
	vsched.Limit(0)
	vsched.GroupOps()
}

func (n *Net) stepStmts() bool {
	for {
		synctest.Wait()
		type ent struct {
			key  string
			rank int
			p    *pend
		}
		if n.rank == nil {
			n.rank = map[string]int{}
		}
		var es []ent
		en := vsched.Enabled()
		if c := vsched.Conflict(); c != "" {
			n.x.FailKey(n.x.Scenario+":map", "%s", c)
			return false
		}
		for _, g := range en {
			es = append(es, ent{key: g, rank: n.rank[g]})
		}
		hs := n.heads()
		sort.SliceStable(hs, func(i, j int) bool { return hs[i].epoch < hs[j].epoch })
		for _, p := range hs {
			l := n.al(p.from) + ">" + n.al(p.to)
			es = append(es, ent{key: l, rank: n.rank[l], p: p})
		}
		if len(es) == 0 {
			return false
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].rank < es[j].rank })
		e := es[0]
		what := e.key
		if e.p == nil {
			what += "@" + vsched.SiteOf(e.key)
		}
		if len(es) > 1 && n.x.Deviate(2, "delay "+what) == 1 {
			n.nrank++
			n.rank[e.key] = n.nrank
			n.Trace = append(n.Trace, "delay "+what)
			continue
		}
		n.x.Count("steps", 1)
		if e.p != nil {
			n.take(e.p)
			if n.drop(e.p) {
				return true
			}
			n.Trace = append(n.Trace, fmt.Sprintf("%s#%d", e.key, e.p.seq))
			e.p.deliver()
			return true
		}
		n.mu.Lock()
		n.epoch++
		n.mu.Unlock()
		vsched.Release(e.key)
		return true
	}
}

// drop asks whether the message is lost.
func (n *Net) drop(p *pend) bool {
	if !n.DropChoice || n.Dropped >= n.DropBudget {
		return false
	}
	key := fmt.Sprintf("%s>%s#%d %s", n.al(p.from), n.al(p.to), p.seq, p.name)
	if (n.DropMatch == nil || n.DropMatch(key)) && n.x.Deviate(2, "drop "+key) == 1 {
		n.Dropped++
		n.Trace = append(n.Trace, "drop "+key)
		n.x.State(strings.Join(n.Trace, ","))
		return true
	}
	return false
}

// StepFIFO delivers the oldest pending message without asking the explorer.
func (n *Net) StepFIFO() bool {
	synctest.Wait()
	hs := n.heads()
	if len(hs) == 0 {
		return false
	}
	p := hs[0]
	for _, q := range hs {
		if q.epoch < p.epoch {
			p = q
		}
	}
	n.take(p)
	if n.drop(p) {
		return true
	}
	n.Trace = append(n.Trace, fmt.Sprintf("%s>%s#%d:%s", n.al(p.from), n.al(p.to), p.seq, p.name))
	p.deliver()
	return true
}

// Run delivers messages (explorer's order) until done() or quiescence; then it
// lets virtual time pass, in steps, up to max. It returns whether done() holds.
func (n *Net) Run(done func() bool, max time.Duration) bool {
	for {
		for n.Step() {
			if n.x.Failed() {
				return done()
			}
			if n.Prompt {
				synctest.Wait()
				if done() {
					return true
				}
			}
		}
		synctest.Wait()
		if done() {
			return true
		}
		if len(n.heads()) > 0 {
			continue
		}
		// nothing to deliver: only the passage of time can help
		if max <= 0 {
			return false
		}
		// (until something happens)
		step := 100 * time.Millisecond
		for i := 0; i < 8 && max > 0; i++ {
			if step > max {
				step = max
			}
			start := time.Now()
			t := time.NewTimer(step)
			select {
			case <-n.wakes():
				t.Stop()
			case <-t.C:
			}
			max -= time.Since(start)
			synctest.Wait()
			if done() || len(n.heads()) > 0 {
				break
			}
			step *= 4
		}
	}
}

// wakes is the channel that tells that a message was sent or a call ended.
func (n *Net) wakes() chan struct{} {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.wake == nil {
		n.wake = make(chan struct{}, 1)
	}
	return n.wake
}

// Wake ends a wait of Run for the passage of time.
func (n *Net) Wake() {
	select {
	case n.wakes() <- struct{}{}:
	default:
	}
}

// Cluster is a set of local servers.
type Cluster struct {
	*Net
	X       *engine.X
	Local   *onet.LocalTest
	Servers []*onet.Server
	Roster  *onet.Roster
}

// Bubble runs body in a virtual-time bubble and returns when it is finished.
// Goroutines of the code under test that never end are abandoned.
func Bubble(x *engine.X, body func()) {
	done := make(chan struct{})
	exited := make(chan struct{})
	started := make(chan struct{})
	go func() {
		defer close(exited)
		defer func() { recover() }()
		synctest.Test(T, func(t *testing.T) {
			close(started)
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(engine.Abort); !ok {
						x.FailKey(x.Scenario+":panic", "panic: %v\n%s", r, debug.Stack())
					}
				}
			}()
			suite := libunlynx.SuiTe
			verifreset.Again()
			libunlynx.SuiTe = suite
			body()
		})
	}()
	<-done
	select {
	case <-exited:
	case <-time.After(3 * time.Second):
		engine.Leaked++
		x.Count("leaked_bubbles", 1)
	}
	netMu.Lock()
	cur = nil
	netMu.Unlock()
}

// New starts n servers; call inside a bubble.
func New(x *engine.X, n int, suite network.Suite) *Cluster {
	nt := &Net{x: x, seqs: map[string]int{}, alias: map[string]string{}}
	netMu.Lock()
	cur = nt
	netMu.Unlock()
	lt := onet.NewLocalTest(suite)
	lt.Check = onet.CheckNone
	srv := lt.GenServers(n)
	c := &Cluster{Net: nt, X: x, Local: lt, Servers: srv, Roster: lt.GenRosterFromHost(srv...)}
	for i, s := range srv {
		nt.alias[string(s.ServerIdentity.Address)] = fmt.Sprintf("s%d", i)
	}
	return c
}

// Connect opens all connections beforehand (so that connection set-up is not
// part of the explored schedules).
func (c *Cluster) Close() {
	vsched.Stop()
	c.Free()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		c.Local.CloseAll()
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Hour):
	}
}

func shortStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}
