// Package vsched is the controlled scheduler: instrumented code of unlynx calls
// P before every statement; when a scenario switches the scheduler on, the
// goroutine parks there and the explorer decides which goroutine moves next.
package vsched

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// Sites maps point ids to "pkgdir/file.go:line"; filled by generated code.
var Sites = map[int]string{}

type parked struct {
	name string
	site int
	ch   chan struct{}
	acc  map[uintptr]bool // the maps the statement accesses (true: changes)
}

// Acc is one access to what may be a map.
type Acc struct {
	M interface{}
	W bool
}

var conflict string // two goroutines in front of conflicting accesses to a map

var (
	active  int32
	mu      sync.Mutex
	names   = map[int64]string{}
	kids    = map[string]int{}
	wait    = map[string]*parked{}
	filter  func(site string) bool
	siteOK  = map[int]bool{}
	only    bool // only named goroutines park
	last    string
	anon    = map[string]int{} // goroutines named after the site where they were first seen
	passed  int
	perSite int // park only so often per goroutine and site (0: always)
	passes  = map[string]int{}
	ops     int32 // group operations are points, too
)

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	i := bytes.IndexByte(s, ' ')
	v, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return v
}

// Start switches the scheduler on: goroutines park at the sites accepted by f.
// With onlyNamed, only goroutines descending from those started with Go park.
func Start(onlyNamed bool, f func(site string) bool) {
	mu.Lock()
	defer mu.Unlock()
	names = map[int64]string{}
	kids = map[string]int{}
	wait = map[string]*parked{}
	siteOK = map[int]bool{}
	filter = f
	only = onlyNamed
	last = ""
	anon = map[string]int{}
	passed = 0
	perSite = 0
	passes = map[string]int{}
	conflict = ""
	atomic.StoreInt32(&ops, 0)
	atomic.StoreInt32(&active, 1)
}

// Stop switches the scheduler off and releases everything parked.
func Stop() {
	mu.Lock()
	defer mu.Unlock()
	atomic.StoreInt32(&active, 0)
	for k, p := range wait {
		close(p.ch)
		delete(wait, k)
	}
}

// Limit makes a goroutine park at most k times at the same site.
func Limit(k int) { mu.Lock(); perSite = k; mu.Unlock() }

// GroupOps makes group operations scheduling points until Stop.
func GroupOps() { atomic.StoreInt32(&ops, 1) }

// Op is called at the start of a group operation.
func Op() {
	if atomic.LoadInt32(&active) == 1 && atomic.LoadInt32(&ops) == 1 {
		park(-3, nil)
	}
}

// Active tells whether a controlled execution is running.
func Active() bool { return atomic.LoadInt32(&active) == 1 }

// P is a scheduling point.
func P(id int) {
	if atomic.LoadInt32(&active) == 0 {
		return
	}
	park(id, nil)
}

// PM is a scheduling point in front of a statement that may access maps.
func PM(id int, f func() []Acc) {
	if atomic.LoadInt32(&active) == 0 {
		return
	}
	park(id, f)
}

// Conflict tells about two goroutines that could access a map at the same time
// in this execution, one of them changing it: the runtime ends the process when
// they do.
func Conflict() string { mu.Lock(); defer mu.Unlock(); return conflict }

func accesses(f func() []Acc) map[uintptr]bool {
	if f == nil {
		return nil
	}
	defer func() { recover() }() // the statement itself will panic in the same way
	var r map[uintptr]bool
	for _, a := range f() {
		v := reflect.ValueOf(a.M)
		if v.Kind() != reflect.Map || v.IsNil() {
			continue
		}
		if r == nil {
			r = map[uintptr]bool{}
		}
		r[v.Pointer()] = r[v.Pointer()] || a.W
	}
	return r
}

func park(id int, f func() []Acc) {
	mu.Lock()
	if atomic.LoadInt32(&active) == 0 {
		mu.Unlock()
		return
	}
	ok, seen := siteOK[id]
	if !seen {
		ok = id < 0 || filter == nil || filter(Sites[id])
		siteOK[id] = ok
	}
	if id <= -2 && perSite > 0 {
		ok = false // locks are only scheduled between named threads
	}
	if !ok {
		mu.Unlock()
		return
	}
	g := goid()
	name, named := names[g]
	if !named && (only || id < 0) {
		mu.Unlock()
		return
	}
	if !named {
		anon[Sites[id]]++
		name = fmt.Sprintf("~%s~%d", Sites[id], anon[Sites[id]])
		names[g] = name
	}
	if perSite > 0 {
		k := name + "@" + strconv.Itoa(id)
		if passes[k]++; passes[k] > perSite {
			mu.Unlock()
			return
		}
	}
	p := &parked{name: name, site: id, ch: make(chan struct{})}
	p.acc = accesses(f)
	for m, w := range p.acc {
		for _, q := range wait {
			if qw, ok := q.acc[m]; ok && (w || qw) && conflict == "" {
				a, b := Sites[p.site], Sites[q.site]
				if b < a {
					a, b = b, a
				}
				conflict = "two goroutines can access the same map at the same time, at " + a + " and " + b
			}
		}
	}
	wait[name] = p
	mu.Unlock()
	<-p.ch
}

// Tok names the goroutine about to be spawned by the current one.
func Tok() string {
	if atomic.LoadInt32(&active) == 0 {
		return ""
	}
	g := goid()
	mu.Lock()
	defer mu.Unlock()
	n, ok := names[g]
	if !ok {
		return ""
	}
	kids[n]++
	return fmt.Sprintf("%s.%d", n, kids[n])
}

// Born gives the current goroutine the name of its token.
func Born(tok string) {
	if tok == "" || atomic.LoadInt32(&active) == 0 {
		return
	}
	g := goid()
	mu.Lock()
	names[g] = tok
	mu.Unlock()
}

// Go starts a named harness thread, parked at its start.
func Go(name string, fn func()) {
	go func() {
		g := goid()
		mu.Lock()
		names[g] = name
		mu.Unlock()
		P(-1)
		fn()
		mu.Lock()
		delete(names, g)
		mu.Unlock()
	}()
}

// Enabled lists the parked goroutines: the last released one first, then by
// name.
func Enabled() []string {
	mu.Lock()
	defer mu.Unlock()
	var r []string
	for n := range wait {
		if n != last {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	if _, ok := wait[last]; ok {
		r = append([]string{last}, r...)
	}
	return r
}

// Last is the name of the last released goroutine.
func Last() string { mu.Lock(); defer mu.Unlock(); return last }

// SiteOf is where a goroutine is parked.
func SiteOf(name string) string {
	mu.Lock()
	defer mu.Unlock()
	if p, ok := wait[name]; ok {
		if p.site < 0 {
			return "start"
		}
		return Sites[p.site]
	}
	return "?"
}

// Release lets one parked goroutine run to its next point.
func Release(name string) {
	mu.Lock()
	defer mu.Unlock()
	p := wait[name]
	delete(wait, name)
	last = name
	passed++
	close(p.ch)
}

// SetLast tells the scheduler that something else (a message) moved.
func SetLast(n string) { mu.Lock(); last = n; mu.Unlock() }

// InPkg accepts sites of the given package directories (relative to the repository).
func InPkg(dirs ...string) func(string) bool {
	return func(s string) bool {
		i := strings.LastIndexByte(s, '/')
		if i < 0 {
			return false
		}
		for _, d := range dirs {
			if s[:i] == d {
				return true
			}
		}
		return false
	}
}

// Mutex replaces sync.Mutex in instrumented code: blocking on it is visible to
// the scheduler, and who gets it next is the explorer's choice.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	readers int
	waiters []chan struct{}
}

func (m *Mutex) acquire(write bool) {
	for {
		P(-2)
		m.mu.Lock()
		if !m.locked && (!write || m.readers == 0) {
			if write {
				m.locked = true
			} else {
				m.readers++
			}
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *Mutex) wake() {
	for _, c := range m.waiters {
		close(c)
	}
	m.waiters = nil
}

// Lock implements sync.Locker.
func (m *Mutex) Lock() { m.acquire(true) }

// TryLock is sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	P(-2)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	return true
}

// Unlock implements sync.Locker.
func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.wake()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ Mutex }

// RLock takes a read lock.
func (m *RWMutex) RLock() { m.acquire(false) }

// RUnlock releases a read lock.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return rl{m} }

type rl struct{ m *RWMutex }

func (r rl) Lock()   { r.m.RLock() }
func (r rl) Unlock() { r.m.RUnlock() }
