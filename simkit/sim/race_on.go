//go:build race

package sim

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the build has Go's happens-before checker.
const RaceEnabled = true

func raceDisable()                    { runtime.RaceDisable() }
func raceEnable()                     { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)    { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)    { runtime.RaceRelease(p) }
func RaceReleaseMrg(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                 { return runtime.RaceErrors() }
