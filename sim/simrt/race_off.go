//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells whether the happens-before detector is compiled in.
const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceRead(p unsafe.Pointer, n int)  {}
func RaceWrite(p unsafe.Pointer, n int) {}
func RaceErrors() int                   { return 0 }
