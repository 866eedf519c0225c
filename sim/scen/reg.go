// Package scen holds the simulated worlds, one or more per property.
package scen

import (
	"testing"

	"verifsim/core"
)

// World is one kind of simulated run.
type World struct {
	Prop string
	Name string
	// Race worlds are also run in the race-detector build.
	Race bool
	// Inst worlds need the library instrumented with yield points.
	Inst bool
	Run  func(*core.Sim)
	// Rule says what one run is and what makes it non-trivial.
	Rule string
	// Real and Stub list the components.
	Real, Stub string
	// Batch is the number of runs per worker process (0: default).
	Batch int
}

var Worlds = map[string]*World{}

func register(w *World) { Worlds[w.Prop] = w }

// T is the test handle the bubbles of testing/synctest need.
var T *testing.T

var exhausted bool

// Exhausted reports that this process has used up something a run needs fresh
// (for example types no codec has seen yet) and should end.
func Exhausted() bool { return exhausted }
