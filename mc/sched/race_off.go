//go:build !race

package sched

import "unsafe"

// Races is the number of data races reported so far in this process.
func Races() int { return 0 }

// Detecting tells whether the binary has the race detector.
const Detecting = false

func raceOff()                   {}
func raceOn()                    {}
func raceRelease(unsafe.Pointer) {}
func raceAcquire(unsafe.Pointer) {}
