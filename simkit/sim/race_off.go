//go:build !race

package sim

import "unsafe"

// RaceEnabled reports whether the build has Go's happens-before checker.
const RaceEnabled = false

func raceDisable()                    {}
func raceEnable()                     {}
func RaceAcquire(p unsafe.Pointer)    {}
func RaceRelease(p unsafe.Pointer)    {}
func RaceReleaseMrg(p unsafe.Pointer) {}
func RaceErrors() int                 { return 0 }
