package cluster

import (
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"unlynxverif/engine"
	"unlynxverif/toy"
	"unlynxverif/vsched"
)

// Thread is one harness thread.
type Thread struct {
	Name string
	Body func()
}

// Threads runs the bodies under the controlled scheduler inside a bubble: at
// every instrumented statement accepted by filter the explorer may switch to
// another goroutine; switching away from one that could go on costs one
// deviation. Goroutines spawned by the bodies are controlled too. When nothing
// can move, virtual time passes, up to maxIdle. It returns whether all bodies
// finished. A panic in a body is a violation.
func Threads(x *engine.X, filter func(string) bool, maxIdle time.Duration, ths ...Thread) bool {
	return threads(x, false, false, filter, maxIdle, nil, ths...)
}

// DelayThreads is Threads with delay bounding: any departure from the default
// order (go on with the same goroutine, else the first by name) costs one
// deviation, also when the current goroutine cannot go on.
func DelayThreads(x *engine.X, filter func(string) bool, maxIdle time.Duration, ths ...Thread) bool {
	return threads(x, true, false, filter, maxIdle, nil, ths...)
}

// OpThreads is DelayThreads where every group operation (of the toy group) is
// a scheduling point, too.
func OpThreads(x *engine.X, filter func(string) bool, maxIdle time.Duration, ths ...Thread) bool {
	return threads(x, true, true, filter, maxIdle, nil, ths...)
}

func init() { toy.OnOp = vsched.Op }

// DelayThreadsUntil is DelayThreads up to the moment when until() holds; from
// then on everything runs freely.
func DelayThreadsUntil(x *engine.X, filter func(string) bool, maxIdle time.Duration, until func() bool, ths ...Thread) bool {
	return threads(x, true, false, filter, maxIdle, until, ths...)
}

func threads(x *engine.X, delay, ops bool, filter func(string) bool, maxIdle time.Duration, until func() bool, ths ...Thread) bool {
	left := len(ths)
	doneCh := make(chan string, len(ths))
	vsched.Start(true, filter)
	if ops {
		vsched.GroupOps()
	}
	defer vsched.Stop()
	for _, t := range ths {
		t := t
		vsched.Go(t.Name, func() {
			defer func() {
				if r := recover(); r != nil {
					x.FailKey(x.Scenario+":panic", "thread %s panics: %v\n%s", t.Name, r, shortStack())
				}
				doneCh <- t.Name
			}()
			t.Body()
		})
	}
	steps := 0
	for {
		synctest.Wait()
		for drained := false; !drained; {
			select {
			case <-doneCh:
				left--
			default:
				drained = true
			}
		}
		if until != nil && vsched.Active() && until() {
			vsched.Stop()
			continue
		}
		en := vsched.Enabled()
		if c := vsched.Conflict(); c != "" {
			x.FailKey(x.Scenario+":map", "%s", c)
			return false
		}
		if len(en) == 0 {
			if left == 0 {
				x.Count("sched_points", steps)
				return true
			}
			if maxIdle <= 0 {
				x.Count("sched_points", steps)
				return false
			}
			time.Sleep(10 * time.Millisecond)
			maxIdle -= 10 * time.Millisecond
			continue
		}
		if x.Failed() {
			return false
		}
		steps++
		if steps > 200000 {
			x.Failf("no progress: %d scheduling steps; parked at %s", steps, where(en))
			return false
		}
		c := 0
		if len(en) > 1 {
			cost := make([]int, len(en))
			if delay || en[0] == vsched.Last() {
				for i := 1; i < len(en); i++ {
					cost[i] = 1
				}
			}
			c = x.ChooseCost(cost, "sched")
			if c >= len(en) {
				return false
			}
		}
		vsched.Release(en[c])
	}
}

func where(en []string) string {
	var s []string
	for _, n := range en {
		s = append(s, fmt.Sprintf("%s@%s", n, vsched.SiteOf(n)))
	}
	return strings.Join(s, " ")
}
