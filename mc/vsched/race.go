//go:build race

package vsched

import "runtime"

// The hand-over between goroutines must not count as synchronisation of the
// code under test.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Race reports whether the race detector is on.
const Race = true
