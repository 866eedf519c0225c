// Package simhook is the seam between the simulator and the code it runs. It
// gives the simulator control over the Go runtime's own randomness (map
// iteration order, map hash seeds), and it carries the yield points that
// bin/build.sh writes between the statements of the library in the
// instrumented builds. It links only in a build made with the runtime overlay.
package simhook

import _ "unsafe"

func setRand(x uint64)
func curG() uintptr
func statusG(g uintptr) uint32

// Seed makes every random draw of the Go runtime a function of x until the
// next call; Seed(0) gives the runtime its own randomness back.
func Seed(x uint64) {
	if x == 0 {
		setRand(0)
		return
	}
	setRand(x | 1)
}

// Runner is the simulated task that is running now.
type Runner struct {
	G       uintptr // goroutine of the task
	Quantum int64   // statements left before it is preempted
	Stmts   int64   // statements run since the last operation began
	Park    func(blocked bool)
	ID      int // the task's number

	// Enter, if set, is called when the task may be about to block for good in a
	// channel operation of the library; it returns at once.
	Enter func()
	// Rejoin is called by a task given up as blocked when it runs again.
	Rejoin func()
}

// lost are the tasks blocked in channel operations of the library.
var lost []*Runner

// SetLost is called by the scheduler.
//
//go:norace
func SetLost(l []*Runner) { lost = l }

// Waiting reports whether the task's goroutine is blocked.
//
//go:norace
func (r *Runner) Waiting() bool { return statusG(r.G)&^0x1000 == 4 }

// Chan comes before a statement of the library that may block in a channel
// operation.
//
//go:norace
func Chan() {
	Y()
	r := cur
	if r == nil || r.Enter == nil || r.G != curG() {
		return
	}
	r.Enter()
}

//go:norace
//go:noinline
func rejoin() {
	g := curG()
	for _, r := range lost {
		if r.G == g {
			r.Rejoin()
			return
		}
	}
}

var cur *Runner

//go:norace
func SetCur(r *Runner) {
	if r != nil {
		r.G = curG()
	}
	cur = r
}

//go:norace
func Cur() *Runner { return cur }

// Y is a yield point: one statement of the library is about to run.
//
//go:norace
func Y() {
	r := cur
	if r == nil {
		if lost != nil {
			rejoin()
		}
		return
	}
	yield(r)
}

//go:norace
//go:noinline
func yield(r *Runner) {
	if r.G != curG() {
		if lost != nil {
			rejoin()
		}
		return
	}
	r.Stmts++
	if r.Quantum--; r.Quantum == 0 {
		r.Park(false)
	}
}

// Block reports that the running task cannot go on until another one has run;
// it returns false outside a simulated task.
//
//go:norace
func Block() bool {
	r := cur
	if r == nil || r.G != curG() {
		return false
	}
	r.Park(true)
	return true
}
