//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the happens-before detector is compiled in.
const RaceEnabled = true

// The hand-over of the run token between tasks must not count as
// synchronisation, or it would order every access and hide all races.
func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceRead(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceReadRange(p, n)
	}
}
func RaceWrite(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceWriteRange(p, n)
	}
}
func RaceErrors() int { return runtime.RaceErrors() }
