//go:build race

package vs

import "runtime"

const Race = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
