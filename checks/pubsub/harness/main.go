//go:build relaygen

package main

import (
	"io"
	"log"

	"joyverif/mc"
)

var vhAssume = []string{
	"the relay's sources (cmd/avtool) are compiled from the current tree after a source rewriting that only inserts scheduling points, resolves selects and replaces mutexes; the rest is the real code",
	"between two scheduling points a session runs alone; sequentially consistent memory is assumed and the race check (S05) justifies it",
}

// vhInner is set by the harness that drives the sessions' functions directly.
var vhInner = map[string]func(tier string) []mc.Exploration{}

func main() {
	log.SetOutput(io.Discard)
	var props []mc.Property
	for _, id := range []string{"S01", "S02", "S03", "S04", "S05", "S06"} {
		id := id
		level := "model_checking"
		if id == "S05" {
			level = "exploration"
		}
		props = append(props, mc.Property{ID: id, Level: level, Assumptions: vhAssume, NoLimit: true, Build: func(tier string) []mc.Exploration {
			var ex []mc.Exploration
			if f := vhInner[id]; f != nil {
				ex = append(ex, f(tier)...)
			}
			return append(ex, vhSessions(id, tier)...)
		}})
	}
	mc.Main(props)
}
