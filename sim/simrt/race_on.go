//go:build go1.25 && race

package simrt

import (
	"runtime"
	"unsafe"
)

// The simulator's own packages are compiled without race instrumentation and its hand-overs are hidden
// from the race detector, so that what it sees is the synchronisation of the code under test alone:
// two accesses race if nothing but the schedule of this run ordered them.

// Racing says that the race detector watches.
const Racing = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Acquire and Release are the two ends of a synchronisation edge of the simulated primitives.
func Acquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func Release[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceCount is the number of races found so far.
func RaceCount() int { return runtime.RaceErrors() }
