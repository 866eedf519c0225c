package scen

import (
	"fmt"
	"runtime/debug"
	"testing"
	"testing/synctest"

	"verifsim/core"
)

// bubble runs f as the root goroutine of a testing/synctest bubble: inside,
// synctest.Wait returns when every other goroutine is blocked, so the root
// decides every step.
func bubble(s *core.Sim, f func()) {
	var pv any
	done := false
	func() {
		defer func() {
			if e := recover(); e != nil && pv == nil {
				// the bubble could not end: goroutines remain blocked
				pv = &core.Violation{Class: "stuck", Msg: fmt.Sprintf("goroutines remain blocked for ever: %v", e)}
			}
		}()
		synctest.Test(T, func(*testing.T) {
			defer func() {
				if e := recover(); e != nil {
					pv = convert(s, e)
				}
			}()
			f()
			done = true
		})
	}()
	if pv != nil {
		if s.Viol != nil {
			panic(s.Viol)
		}
		panic(pv)
	}
	if !done {
		core.Harness("bubble ended early")
	}
}

// convert turns a recovered panic into a violation when the library raised it.
func convert(s *core.Sim, e any) any {
	switch e.(type) {
	case *core.Violation, core.HarnessError, core.StepLimit:
		return e
	}
	st := string(debug.Stack())
	if core.LibraryPanic(st) {
		return &core.Violation{Class: "panic", Msg: core.Clip(fmt.Sprintf("panic: %v (%s)", e, core.PanicSite(st)), 1200)}
	}
	// what the library returned broke the code that looks at it
	return &core.Violation{Class: "broken-result", Msg: core.Clip(fmt.Sprintf("what was returned can not be used: %v (%s)", e, core.PanicSite(st)), 1200)}
}

// try runs f and turns a library panic into a violation of class "panic".
func try(s *core.Sim, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			c := convert(s, e)
			if v, ok := c.(*core.Violation); ok && v.Class == "panic" {
				s.Fail("panic", "%s: %s", what, v.Msg)
			}
			panic(c)
		}
	}()
	f()
}
