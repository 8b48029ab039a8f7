//go:build race

package vsimrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the Go race detector is compiled in. The simulator
// hides its own hand-offs from it and reports only the happens-before edges
// that the real primitives would create, so every race it reports is a race of
// the code under test in the simulated schedule.
const RaceBuild = true

func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }
