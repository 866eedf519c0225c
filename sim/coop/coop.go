// Package coop runs simulated threads one at a time under the control of the
// simulation's choices. Control changes hands at operation boundaries, at the
// seams (probe values, readers, writers, updaters) and, in the instrumented
// builds, between any two statements of the library. In the race build the
// hand-offs are invisible to the race detector, so two tasks are ordered only
// by the synchronisation the library and its callers really perform.
package coop

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/core"
	"verifsim/simhook"
)

type parkMsg struct {
	done    bool
	blocked bool
	enter   bool // goes on, and may block in a channel operation
}

type logLine struct {
	step int64
	text string
}

//go:norace
func (t *Task) step() int64 { return t.c.S.Steps }

type abortPanic struct{}

// Lost counts tasks that blocked in a channel operation of the library.
const Lost = "condition:a task blocked in a channel operation of the library"

// Injected is the panic value of faults injected through callbacks.
type Injected struct{ Msg string }

type Task struct {
	Name string
	c    *Coop
	id   int
	r    simhook.Runner
	wake chan int64 // quantum; negative aborts
	park chan parkMsg
	f    func(*Task)

	// owned by the task until it is joined
	viol  *core.Violation
	harn  string
	OpNow string
	Stats []string
	log   []logLine

	// owned by the scheduler
	state int // 0 ready, 1 blocked, 2 done, 3 blocked in the library's own channel operation
}

type Coop struct {
	S     *core.Sim
	tasks []*Task
	wg    sync.WaitGroup

	mode     int
	Aborting bool
	Switches int64
	lost     int // tasks in state 3
}

const maxStmts = 20_000_000 // statements of one operation

func New(s *core.Sim) *Coop { return &Coop{S: s} }

// Go adds a task; it runs when Run is called.
func (c *Coop) Go(name string, f func(*Task)) *Task {
	t := &Task{Name: name, c: c, id: len(c.tasks), wake: make(chan int64), park: make(chan parkMsg), f: f}
	t.r.Park = t.parkFn
	t.r.Enter = t.enter
	t.r.Rejoin = func() { t.parkFn(false) }
	t.r.ID = t.id
	c.tasks = append(c.tasks, t)
	return t
}

func (t *Task) main() {
	defer t.c.wg.Done()
	core.HideSync()
	q := <-t.wake
	core.ShowSync()
	if q >= 0 {
		t.begin(q)
		t.body()
		t.leave()
	}
	core.HideSync()
	t.park <- parkMsg{done: true}
	core.ShowSync()
}

//go:norace
func (t *Task) begin(q int64) {
	t.r.Quantum = q
	simhook.SetCur(&t.r)
}

func (t *Task) body() {
	defer func() {
		if e := recover(); e != nil {
			t.caught(e)
		}
	}()
	t.f(t)
}

// caught turns a panic that left an operation into a violation, unless it
// belongs to the simulator.
func (t *Task) caught(e any) {
	switch x := e.(type) {
	case *core.Violation:
		if t.viol == nil {
			t.viol = x
		}
	case abortPanic:
	case core.HarnessError:
		t.harn = x.Msg
	default:
		st := string(debug.Stack())
		if core.LibraryPanic(st) {
			if t.viol == nil {
				t.viol = &core.Violation{Class: "panic", Msg: core.Clip(fmt.Sprintf("task %s, in %s: panic: %v (%s)", t.Name, t.OpNow, e, core.PanicSite(st)), 1200)}
			}
		} else {
			// what the library returned broke the code that looks at it
			if t.viol == nil {
				t.viol = &core.Violation{Class: "broken-result", Msg: core.Clip(fmt.Sprintf("task %s, in %s: what was returned can not be used: %v (%s)", t.Name, t.OpNow, e, core.PanicSite(st)), 1200)}
			}
		}
	}
}

//go:norace
func (t *Task) leave() {
	if simhook.Cur() == &t.r {
		simhook.SetCur(nil)
	}
}

func (t *Task) enter() {
	core.HideSync()
	t.park <- parkMsg{enter: true}
	core.ShowSync()
}

//go:norace
func (t *Task) parkFn(blocked bool) {
	t.leave()
	core.HideSync()
	t.park <- parkMsg{blocked: blocked}
	q := <-t.wake
	core.ShowSync()
	if q < 0 {
		panic(abortPanic{})
	}
	t.r.Quantum = q
	if t.r.Stmts > maxStmts {
		simhook.SetCur(nil)
		panic(&core.Violation{Class: "hang", Msg: fmt.Sprintf("task %s: operation %s does not end", t.Name, t.OpNow)})
	}
	simhook.SetCur(&t.r)
}

// Yield is an operation boundary or a seam: the scheduler may run another task.
//
//go:norace
func (t *Task) Yield() { t.parkFn(false) }

// Op names the operation that begins now and lets others run before it.
func (t *Task) Op(format string, a ...any) {
	t.OpNow = fmt.Sprintf(format, a...)
	if t.c.S.Verbose {
		t.log = append(t.log, logLine{t.step(), t.Name + ": " + t.OpNow})
	}
	t.opStart()
	t.Yield()
}

//go:norace
func (t *Task) opStart() { t.r.Stmts = 0 }

// Until waits for a condition other tasks bring about.
func (t *Task) Until(cond func() bool) {
	for !cond() {
		t.parkFn(true)
	}
}

// Failf ends the task with a violation.
func (t *Task) Failf(class, format string, a ...any) {
	panic(&core.Violation{Class: class, Msg: core.Clip(fmt.Sprintf("task %s, in %s: ", t.Name, t.OpNow)+fmt.Sprintf(format, a...), 1500)})
}

// Hit counts a condition reached, from inside a task.
func (t *Task) Hit(name string) { t.Stats = append(t.Stats, name) }

// Current returns a function that yields if a task is running (for seams that
// are also used outside tasks).
func SeamYield() {
	r := simhook.Cur()
	if r != nil {
		seam(r)
	}
}

//go:norace
func seam(r *simhook.Runner) { r.Park(false) }

// Run schedules the tasks until all have ended and joins them.
func (c *Coop) Run() {
	s := c.S
	// scheduling style of this run
	c.mode = s.Weighted(2, 3, 4, 3)
	races := core.RaceErrors()
	for _, t := range c.tasks {
		c.wg.Add(1)
		go t.main()
	}
	live := len(c.tasks)
	blockedRounds := 0
	last := -1
	idle := 0
	var msg parkMsg
	var steps int64
	for live > 0 {
		if c.lost > 0 {
			live -= c.poll()
			if live == 0 {
				break
			}
		}
		// choose among the tasks that may make progress
		var ready []*Task
		for _, t := range c.tasks {
			if t.state < 2 {
				ready = append(ready, t)
			}
		}
		if len(ready) == 0 {
			// only the library's own goroutines, or nobody, can go on
			if idle++; idle > 20000 {
				c.abort("deadlock", "every task waits: "+c.who())
				break
			}
			time.Sleep(200 * time.Microsecond)
			continue
		}
		idle = 0
		var t *Task
		stay := false
		if last >= 0 && c.tasks[last].state == 0 && c.mode != 1 {
			stay = !s.Chance(40)
		}
		if stay {
			t = c.tasks[last]
		} else {
			var pref []*Task
			for _, x := range ready {
				if x.state == 0 {
					pref = append(pref, x)
				}
			}
			if len(pref) == 0 {
				pref = ready
			}
			t = pref[s.Draw(len(pref))]
		}
		q := c.quantum()
		steps++
		if steps > 60000 {
			// too long to be useful; let everything run out unpreempted
			q = 0
			if steps > 400000 {
				c.abort("hang", fmt.Sprintf("no end after %d scheduling steps", steps))
				break
			}
		}
		s.Steps++
		if t.id != last {
			c.Switches++
			if last >= 0 && c.tasks[last].state == 0 {
				s.Stats["fault:running goroutine preempted"]++
			}
		}
		s.Mark(uint64(t.id)<<32 | uint64(q&0xffffffff))
		last = t.id
		core.HideSync()
		t.wake <- q
		msg = <-t.park
		for msg.enter {
			var ok bool
			if msg, ok = t.settle(); !ok {
				msg = parkMsg{enter: true}
				break
			}
		}
		core.ShowSync()
		switch {
		case msg.enter:
			t.state = 3
			c.setLost()
			s.Stats[Lost]++
		case msg.done:
			t.state = 2
			live--
			c.unblock()
			blockedRounds = 0
		case msg.blocked:
			t.state = 1
			all := true
			for _, x := range c.tasks {
				all = all && x.state != 0 && x.state != 3
			}
			if all {
				blockedRounds++
				c.unblock()
				if blockedRounds > 50*len(c.tasks)+200 {
					c.abort("deadlock", "every task waits: "+c.who())
					live = 0
				}
			}
		default:
			t.state = 0
			c.unblock()
			blockedRounds = 0
		}
	}
	if c.lost == 0 {
		c.wg.Wait()
	}
	simhook.SetLost(nil)
	simhook.SetCur(nil)
	for _, t := range c.tasks {
		for _, h := range t.Stats {
			s.Hit(h)
		}
	}
	var log []logLine
	for _, t := range c.tasks {
		log = append(log, t.log...)
	}
	sort.SliceStable(log, func(a, b int) bool { return log[a].step < log[b].step })
	for _, l := range log {
		s.Logf("step %d %s", l.step, l.text)
	}
	for _, t := range c.tasks {
		if t.harn != "" {
			core.Harness("%s", t.harn)
		}
	}
	for _, t := range c.tasks {
		if t.viol != nil {
			s.Fail(t.viol.Class, "%s", t.viol.Msg)
		}
	}
	if s.Viol != nil {
		panic(s.Viol)
	}
	if core.RaceErrors() != races {
		s.Fail("race", "unsynchronised access to shared memory: %s", core.RaceReport())
	}
}

//go:norace
func (t *Task) opName() string { return t.OpNow }

func (c *Coop) who() string {
	var who []string
	for _, x := range c.tasks {
		if x.state != 2 {
			who = append(who, x.Name+" in "+x.opName())
		}
	}
	return strings.Join(who, ", ")
}

// settle waits until a task that went into a channel operation of the library
// either comes back or stays blocked there.
//
//go:norace
func (t *Task) settle() (parkMsg, bool) {
	for n := 0; n < 30; {
		select {
		case m := <-t.park:
			return m, true
		default:
		}
		if t.r.Waiting() {
			n++
		} else {
			n = 0
		}
		runtime.Gosched()
	}
	return parkMsg{}, false
}

// poll lets tasks that were blocked in the library's channel operations run to
// the next point where the scheduler has a say, if they can run again.
func (c *Coop) poll() (ended int) {
	changed := false
	for _, t := range c.tasks {
		if t.state != 3 {
			continue
		}
		core.HideSync()
		m, ok := t.settle()
		for ok && m.enter {
			m, ok = t.settle()
		}
		core.ShowSync()
		if !ok {
			continue
		}
		changed = true
		switch {
		case m.done:
			t.state = 2
			ended++
		default:
			t.state = 0
		}
	}
	if changed {
		c.setLost()
		c.unblock()
	}
	return ended
}

func (c *Coop) setLost() {
	var l []*simhook.Runner
	for _, t := range c.tasks {
		if t.state == 3 {
			l = append(l, &t.r)
		}
	}
	c.lost = len(l)
	simhook.SetLost(l)
}

func (c *Coop) unblock() {
	for _, x := range c.tasks {
		if x.state == 1 {
			x.state = 0
		}
	}
}

func (c *Coop) abort(class, msg string) {
	c.S.Note(class, "%s", msg)
	for _, t := range c.tasks {
		for t.state < 2 {
			core.HideSync()
			t.wake <- -1
			m := <-t.park
			for m.enter {
				var ok bool
				if m, ok = t.settle(); !ok {
					t.state = 3
					break
				}
			}
			core.ShowSync()
			if t.state == 3 {
				c.setLost()
			} else if m.done {
				t.state = 2
			}
		}
	}
}

// quantum is the number of library statements the task may run before it is
// preempted; 0 means until it yields by itself.
func (c *Coop) quantum() int64 {
	s := c.S
	switch c.mode {
	case 0:
		return 0
	case 1:
		return int64(1 + s.Draw(6))
	case 2:
		if s.Chance(70) {
			return int64(1 + s.Draw(60))
		}
		return 0
	default:
		if s.Chance(50) {
			return int64(1 + s.Draw(600))
		}
		return 0
	}
}
