package main

import "joyverif/mc"

var assume = []string{
	"only the exported connection API is driven; the transport is an in-memory stream",
	"a type-3 chunk starting a message right after a full header is left out: implementations disagree on its timestamp",
}

func main() {
	mc.Main([]mc.Property{
		{ID: "R01", Level: "model_checking", Build: func(t string) []mc.Exploration { return append(r01(t), r01long()) }, Assumptions: assume},
		{ID: "R02", Level: "model_checking", Build: func(t string) []mc.Exploration { return append(r02(t), r02long()) }, Assumptions: assume},
		{ID: "R03", Level: "model_checking", Build: r03, Assumptions: assume},
		{ID: "R04", Level: "exploration", Build: r04, Assumptions: assume},
		{ID: "R05", Level: "model_checking", Build: func(t string) []mc.Exploration { return append(r05(t), r05long(t), r05many()) }, Assumptions: assume},
		{ID: "R06", Level: "model_checking", Build: func(t string) []mc.Exploration { return append(r06(t), r06long()) }, Assumptions: assume},
	})
}
