package main

import "joyverif/mc"

var assume = []string{
	"only the exported connection, client, server and opener API is driven; transports are in-memory connections",
	"in-memory transports buffer without limit: a peer that stops reading is not modelled here",
}

func main() {
	mc.Main([]mc.Property{
		{ID: "R07", Level: "model_checking", Build: r07, Assumptions: assume},
		{ID: "R08", Level: "model_checking", Build: r08, Assumptions: assume},
		{ID: "R09", Level: "exploration", Build: r09, Assumptions: assume},
		{ID: "R10", Level: "model_checking", Build: r10, Assumptions: []string{"only the exported client and server API is driven; transports are in-memory connections that honour deadlines", "time is virtual"}},
		{ID: "R12", Level: "exploration", Build: r12, Assumptions: []string{"only the exported hooks with exported argument types are set: tags, chunk data and stages"}},
		{ID: "R11", Level: "model_checking", Build: r11, Assumptions: []string{"only the exported client and server API is driven; transports are in-memory connections with bounded or unbounded buffers", "time is virtual"}},
	})
}
