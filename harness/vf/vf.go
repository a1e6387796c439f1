// Package vf is the interface between the harnesses and the decision procedure. Under gosym its functions are symbolic;
// natively they read a counterexample, so that the same harness replays it against the real code.
package vf

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"testing/synctest"
	"time"
)

var registry = map[string]func(){}

// Register makes a harness known under its name.
// The clock starts within a second: nothing may depend on whole seconds.
func Register(name string, f func()) {
	registry[name] = func() {
		time.Sleep(637 * time.Millisecond)
		f()
	}
}

// Names and Run are used by the native replay only.
func Run(name string) bool {
	f, ok := registry[name]
	if !ok {
		return false
	}
	f()
	return true
}

var (
	mu      sync.Mutex
	inputs  map[string]uint64
	counter = map[string]int{}
	tier    int
)

// Load reads the counterexample to replay.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var c struct {
		Inputs map[string]uint64 `json:"inputs"`
		Tier   int               `json:"tier"`
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	inputs = c.Inputs
	tier = c.Tier
	return nil
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := counter[name]
	counter[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return inputs[name]
}

// Verdict ends a native replay.
type Verdict struct{ Kind, Msg string }

var onVerdict func(Verdict)

// OnVerdict sets what a native run does when it comes to a verdict.
func OnVerdict(f func(Verdict)) { onVerdict = f }

func finish(v Verdict) {
	onVerdict(v)
	select {}
}

// Symbolic tells whether the harness is being executed symbolically.
func Symbolic() bool { return false }

// Thorough tells whether the deeper bounds apply.
func Thorough() bool { return tier > 0 }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return next(name) != 0 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(next(name))
}

// Choice is an arbitrary integer in [0,n), made concrete at once (the search forks).
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

// ConcreteBool forks over the values of x.
func ConcreteBool(x bool) bool { return x }

// Assume restricts the paths looked at.
func Assume(c bool) {
	if !c {
		finish(Verdict{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		finish(Verdict{"assert", msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { finish(Verdict{"assert", msg}) }

// Unsupported ends the path without a verdict: the environment cannot do what the code asks for.
func Unsupported(msg string) { finish(Verdict{"unsupported", msg}) }

// Busy makes it a violation (spinning) if the path goes on for more than n instructions from here; 0 takes the limit away.
func Busy(n int) {}

// End ends the path successfully.
func End() { finish(Verdict{"done", ""}) }

// Reach marks a situation that some path must come to, against vacuity.
func Reach(label string) {}

// Log notes something for a counterexample.
func Log(s string) {
	if os.Getenv("VF_LOG") != "" {
		fmt.Fprintln(os.Stderr, s)
	}
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqAny is reflect.DeepEqual, as one condition.
func EqAny(a, b any) bool { return reflect.DeepEqual(a, b) }

// MapOrder makes ranges over maps of at most n entries in the code under test take every order.
func MapOrder(n int) {}

// Goroutines is the number of live goroutines.
func Goroutines() int {
	synctest.Wait()
	return runtime.NumGoroutine() - baseG
}

var baseG int

// SetBase fixes the number of goroutines that are not the harness's.
func SetBase(n int) { baseG = n }

// Settle lets all other goroutines run until they block, without letting time pass.
func Settle() { synctest.Wait() }
