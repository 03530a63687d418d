//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// Race says that the race detector is built in. What the scheduler does is hidden from it, so it sees the
// synchronisation of the code under test and nothing else: any two accesses that are not ordered by the
// program itself are a data race, in whatever order this run happened to perform them.
const Race = true

// Races is the number of data races reported before the run was ended by force: what tasks do while they are torn down is
// ordered by nothing.
var Races int

func countRaces() { Races = runtime.RaceErrors() }

func Hide()                         { runtime.RaceDisable() }
func Unhide()                       { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

func ReadRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func WriteRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
