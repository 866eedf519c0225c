//go:build race

package core

import "runtime"

const RaceBuild = true

// HideSync makes the synchronisation that follows invisible to the race
// detector, so that the simulator's own hand-offs order nothing.
func HideSync() { runtime.RaceDisable() }
func ShowSync() { runtime.RaceEnable() }

func RaceErrors() int { return runtime.RaceErrors() }
