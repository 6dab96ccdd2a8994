// Package verifreset re-runs the package variable initialisers of the code
// under test, so that every execution starts like a fresh process.
package verifreset

var fns []func()

// Register is called by generated code.
func Register(f func()) { fns = append(fns, f) }

// Reset re-initialises everything registered.
func Reset() {
	set = map[string]interface{}{}
	OnProof = nil
	reset()
}

// Again re-initialises everything once more, keeping the knobs set since Reset.
// (Channels made inside a virtual-time bubble are needed there.)
func Again() {
	reset()
	for n, v := range set {
		if f, ok := knobs[n]; ok {
			f(v)
		}
	}
}

func reset() {
	for _, f := range fns {
		one(f)
	}
}

// N is the number of registered initialisers.
func N() int { return len(fns) }

func one(f func()) {
	defer func() { recover() }()
	f()
}

var set = map[string]interface{}{}
var knobs = map[string]func(interface{}){}

// Knob registers a setter of a former constant.
func Knob(name string, f func(interface{})) { knobs[name] = f }

// Set changes a former constant until the next execution; false if there is
// no such knob in this build.
func Set(name string, v interface{}) bool {
	f, ok := knobs[name]
	set[name] = v
	if ok {
		f(v)
	}
	return ok
}

// Watching tells whether this build reports the creation of proofs.
var Watching bool

// OnProof, when set, is called (by any goroutine) with the arguments and the
// results of every function that creates a proof.
var OnProof func(args []interface{}, results []interface{})

// Proof is called by generated code.
func Proof(args []interface{}, results ...interface{}) {
	if f := OnProof; f != nil {
		f(args, results)
	}
}
