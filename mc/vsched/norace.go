//go:build !race

package vsched

func raceOff() {}
func raceOn()  {}

// Race reports whether the race detector is on.
const Race = false
