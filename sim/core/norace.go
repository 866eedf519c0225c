//go:build !race

package core

const RaceBuild = false

func HideSync()       {}
func ShowSync()       {}
func RaceErrors() int { return 0 }
