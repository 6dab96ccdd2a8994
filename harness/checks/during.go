package checks

import (
	"time"

	"unlynxverif/engine"
)

func init() {
	engine.Register(&engine.Scenario{Name: "c04-during", Prop: "C04", MaxDevT: 1, Run: c04During})
}

// c04During: the next operation of another survey (its creation, an upload,
// its results request) comes after any number of messages of the execution of
// a survey (of its creation); the client of the other survey goes on at once.
func c04During(x *engine.X) {
	useToy(4)
	n := x.Int(2, 3, "servers")
	at := x.Choose(n, "querier of B")
	what := x.Choose(3, "operation of B")
	first := x.Choose(2, "operation of A") // results, creation
	place := 0
	if x.Thorough() {
		place = x.Choose(2, "data")
	}
	svCluster(x, n, func(c *svc) {
		c.Hold()
		c.FIFO = true
		vs := c04Pair(x, c, 0, at, place)
		a, b := vs[0], vs[1]
		for first == 0 && a.step < a.ops()-2 || b.step < []int{0, 1, b.ops() - 2}[what] {
			v := a
			if first != 0 || a.step >= a.ops()-2 {
				v = b
			}
			if !v.next() {
				return
			}
		}
		if x.Thorough() {
			c.FIFO, c.Demote = false, true
		}
		var sid = sidOf("")
		create := a.call
		if first == 0 {
			a.next()
		} else {
			create = c.start("creation", c.creation(a.at, a.q, a.dps, &sid))
		}
		for !x.Bool("now") && c.Step() {
		}
		c.Prompt = true
		for b.step < b.ops() {
			if !b.next() {
				return
			}
		}
		if first != 0 {
			if !c.await(2*time.Hour, create) {
				x.Failf("the creation of survey A does not end")
				return
			}
			if err := create.result(); err != nil {
				x.Failf("survey A cannot be created: %v", err)
				return
			}
			a.sid, a.step = string(sid), 1
		}
		for a.step < a.ops() {
			if !a.next() {
				return
			}
		}
		x.Count("offsets", 1)
	})
	x.Obs("%d %d %d %d", n, at, what, first)
}
