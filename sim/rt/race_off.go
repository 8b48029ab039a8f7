//go:build !race

package vsimrt

import "unsafe"

// RaceBuild reports whether the Go race detector is compiled in.
const RaceBuild = false

func raceOff()                          {}
func raceOn()                           {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
