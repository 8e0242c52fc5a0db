//go:build !race

package vsched

func raceOff()   {}
func raceOn()    {}
func races() int { return 0 }

// RaceDetector tells whether the race detector is on.
const RaceDetector = false
