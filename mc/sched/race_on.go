//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// Races is the number of data races reported so far in this process.
func Races() int { return runtime.RaceErrors() }

// Detecting tells whether the binary has the race detector.
const Detecting = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
