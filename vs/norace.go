//go:build !race

package vs

const Race = false

func raceOff() {}
func raceOn()  {}
