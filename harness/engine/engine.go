// Package engine is a stateless bounded model checker: it enumerates every
// sequence of choices that a scenario asks for (inputs, schedules, faults),
// runs the real code once per sequence, and reports the first sequence on which
// the scenario's oracle fails.
package engine

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"sync"

	"unlynxverif/verifreset"
)

// Alt is one enabled action at a scheduling point. Two actions are treated as
// independent (they commute) iff their Obj differ and both are non-empty.
type Alt struct {
	Key string // stable identity of the action within the execution
	Obj string // what it touches
}

// Point is one resolved choice of an execution.
type Point struct {
	N      int
	Chosen int
	Cost   []int // deviation cost per alternative (nil: all free)
	Alts   []Alt // only for scheduling points with sleep sets
	Sleep  []Alt // sleep set in force at that point
	Label  string
}

// Item is a unit of pending work: a choice prefix.
type Item struct {
	Prefix []int `json:"p"`
	Sleep  []Alt `json:"s,omitempty"` // sleep set to install right before the last choice of the prefix is taken
	Cost   int   `json:"c"`
}

// Violation is a failed oracle.
type Violation struct {
	Scenario string `json:"scenario"`
	Key      string `json:"key"` // stable identity used to match known findings
	Msg      string `json:"msg"`
	Prefix   []int  `json:"choices"`
	Labels   []string
}

// X is one execution.
type X struct {
	mu       sync.Mutex
	item     Item
	points   []Point
	cost     int
	sleep    []Alt
	redund   bool
	redundAt int
	viol     []Violation
	obs      []uint64
	states   []uint64
	diverged string
	samples  []string
	Scenario string
	Tier     string
	Verbose  bool
	counters map[string]int
	ended    bool
}

// NewX prepares an execution of the given prefix.
func NewX(scn, tier string, it Item) *X {
	return &X{item: it, Scenario: scn, Tier: tier, counters: map[string]int{}}
}

// Thorough reports whether the thorough tier was asked for.
func (x *X) Thorough() bool { return x.Tier == "thorough" }

func (x *X) next(n int) (int, bool) {
	i := len(x.points)
	if i < len(x.item.Prefix) {
		c := x.item.Prefix[i]
		if c >= n {
			if x.diverged == "" {
				x.diverged = fmt.Sprintf("replay divergence at choice %d: want %d of %d", i, c, n)
			}
			return 0, true
		}
		return c, true
	}
	return 0, false
}

// Choose enumerates n free alternatives (inputs, configurations).
func (x *X) Choose(n int, label string) int {
	if n <= 0 {
		panic("Choose: no alternative: " + label)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	c, _ := x.next(n)
	x.restore()
	x.points = append(x.points, Point{N: n, Chosen: c, Label: label, Sleep: x.sleep})
	return c
}

// Bool enumerates false, true.
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

// Int enumerates lo..hi.
func (x *X) Int(lo, hi int, label string) int { return lo + x.Choose(hi-lo+1, label) }

// PickI enumerates the given values.
func (x *X) PickI(label string, vs ...int) int { return vs[x.Choose(len(vs), label)] }

// Pick64 enumerates the given values.
func (x *X) Pick64(label string, vs ...int64) int64 { return vs[x.Choose(len(vs), label)] }

// Deviate enumerates n alternatives; taking any but the first costs one deviation.
func (x *X) Deviate(n int, label string) int {
	cost := make([]int, n)
	for i := 1; i < n; i++ {
		cost[i] = 1
	}
	return x.ChooseCost(cost, label)
}

// ChooseCost enumerates len(cost) alternatives with explicit deviation costs.
func (x *X) ChooseCost(cost []int, label string) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	c, _ := x.next(len(cost))
	x.restore()
	x.points = append(x.points, Point{N: len(cost), Chosen: c, Cost: cost, Label: label, Sleep: x.sleep})
	x.cost += cost[c]
	return c
}

// restore installs the sleep set of the work item at its last choice.
func (x *X) restore() {
	if len(x.points) == len(x.item.Prefix)-1 {
		x.sleep = x.item.Sleep
	}
}

func indep(a, b Alt) bool { return a.Obj != "" && b.Obj != "" && a.Obj != b.Obj }

// Sched chooses one of the enabled actions, with sleep-set partial-order
// reduction: every Mazurkiewicz trace is explored, redundant orders are not.
func (x *X) Sched(alts []Alt, label string) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	n := len(alts)
	inPrefix := len(x.points) < len(x.item.Prefix)
	last := len(x.points) == len(x.item.Prefix)-1
	asleep := func(sl []Alt, a Alt) bool {
		for _, s := range sl {
			if s.Key == a.Key {
				return true
			}
		}
		return false
	}
	var c int
	if inPrefix {
		c, _ = x.next(n)
		if last {
			x.sleep = x.item.Sleep
		}
	} else {
		c = -1
		for i, a := range alts {
			if !asleep(x.sleep, a) {
				c = i
				break
			}
		}
		if c < 0 {
			if !x.redund {
				x.redund = true
				x.redundAt = len(x.points)
			}
			c = 0
		}
	}
	p := Point{N: n, Chosen: c, Alts: alts, Label: label + ":" + alts[c].Key, Sleep: append([]Alt{}, x.sleep...)}
	x.points = append(x.points, p)
	if !inPrefix || last {
		var ns []Alt
		for _, s := range x.sleep {
			if indep(s, alts[c]) {
				ns = append(ns, s)
			}
		}
		x.sleep = ns
	}
	return c
}

// Failf records a violation of the property. The key is the scenario.
func (x *X) Failf(format string, a ...interface{}) { x.FailKey("", format, a...) }

// FailKey records a violation with a stable key (to match known findings).
func (x *X) FailKey(key, format string, a ...interface{}) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.ended {
		return
	}
	if key == "" {
		key = x.Scenario
	}
	x.viol = append(x.viol, Violation{Scenario: x.Scenario, Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Failed tells whether a violation was recorded.
func (x *X) Failed() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.viol) > 0
}

// Obs records an observed outcome (to count distinct outcomes).
func (x *X) Obs(format string, a ...interface{}) {
	x.mu.Lock()
	defer x.mu.Unlock()
	s := fmt.Sprintf(format, a...)
	x.obs = append(x.obs, hash(x.Scenario+"|"+s))
	if len(x.samples) < 2 {
		x.samples = append(x.samples, s)
	}
}

// State records a visited state (canonical description).
func (x *X) State(s string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.states = append(x.states, hash(x.Scenario+"|"+s))
}

// Count adds to a named counter reported in the evidence.
func (x *X) Count(name string, n int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.counters[name] += n
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Labels lists the choices taken.
func (x *X) Labels() []string {
	var r []string
	for _, p := range x.points {
		r = append(r, fmt.Sprintf("%s=%d/%d", p.Label, p.Chosen, p.N))
	}
	return r
}

// Choices lists the chosen indices.
func (x *X) Choices() []int {
	r := make([]int, len(x.points))
	for i, p := range x.points {
		r[i] = p.Chosen
	}
	return r
}

// Scenario is one closed driver + oracle.
type Scenario struct {
	Name      string
	Prop      string
	MaxDev    int // deviation bound (quick)
	MaxDevT   int // deviation bound (thorough); 0: same as quick
	ThoroOnly bool
	Race      bool // also part of the free-running race pass
	RaceOnly  bool
	Sched     bool // needs the instrumented build
	Run       func(x *X)
	// NoPanic: a panic of the code under test is an oracle failure (default);
	// AllowPanic disables that.
	AllowPanic bool
	MaxExecs   int // cap on executions (0: none); reported as non exhaustive when hit
	MaxExecsT  int
}

// Abort unwinds the current execution (after a violation).
type Abort struct{}

// RunOne executes one prefix, converting panics of the code under test into
// violations.
func RunOne(s *Scenario, tier string, it Item) (x *X) {
	x = NewX(s.Name, tier, it)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Abort); ok {
				return
			}
			st := string(debug.Stack())
			x.FailKey(s.Name+":panic", "panic: %v\n%s", r, trimStack(st))
		}
	}()
	verifreset.Reset()
	s.Run(x)
	return x
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, ".go:") || strings.Contains(l, "(") {
			out = append(out, l)
		}
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Expand returns the alternatives to the executed sequence that still have to
// be explored.
func (x *X) Expand(maxDev int) []Item {
	var out []Item
	choices := x.Choices()
	cost := 0
	for i, p := range x.points {
		if x.redund && i >= x.redundAt {
			break // everything from here on is covered by another execution
		}
		if i >= len(x.item.Prefix) {
			if p.Alts != nil {
				explored := append([]Alt{}, p.Sleep...)
				explored = append(explored, p.Alts[p.Chosen])
				for a := 0; a < p.N; a++ {
					if a == p.Chosen || has(p.Sleep, p.Alts[a]) {
						continue
					}
					out = append(out, Item{Prefix: append(append([]int{}, choices[:i]...), a), Sleep: append([]Alt{}, explored...), Cost: cost})
					explored = append(explored, p.Alts[a])
				}
			} else {
				for a := 0; a < p.N; a++ {
					if a == p.Chosen {
						continue
					}
					c := cost
					if p.Cost != nil {
						c += p.Cost[a]
					}
					if c > maxDev {
						continue
					}
					out = append(out, Item{Prefix: append(append([]int{}, choices[:i]...), a), Sleep: p.Sleep, Cost: c})
				}
			}
		}
		if p.Cost != nil {
			cost += p.Cost[p.Chosen]
		}
	}
	return out
}

func has(sl []Alt, a Alt) bool {
	for _, s := range sl {
		if s.Key == a.Key {
			return true
		}
	}
	return false
}

// Redundant tells whether the execution only repeated explored behaviour.
func (x *X) Redundant() bool { return x.redund }

// Diverged returns a non-empty description when the replayed prefix did not fit.
func (x *X) Diverged() string { return x.diverged }

// Violations returns the recorded violations.
func (x *X) Violations() []Violation {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.ended = true
	return append([]Violation{}, x.viol...)
}

// NPoints is the number of choice points passed.
func (x *X) NPoints() int { return len(x.points) }
