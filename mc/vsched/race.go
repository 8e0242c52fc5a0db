//go:build race

package vsched

import "runtime"

// Hand-offs between threads must not order their memory accesses in the eyes of the race detector.
func raceOff()   { runtime.RaceDisable() }
func raceOn()    { runtime.RaceEnable() }
func races() int { return runtime.RaceErrors() }

// RaceDetector tells whether the race detector is on.
const RaceDetector = true
