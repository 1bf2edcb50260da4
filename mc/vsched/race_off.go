//go:build !race

package vsched

import "unsafe"

const RaceBuild = false

func raceOff()                   {}
func raceOn()                    {}
func raceAcquire(unsafe.Pointer) {}
func raceRelease(unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
