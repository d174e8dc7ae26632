// Utility checks: U01 (pacing to native rate), U02 (opening media addresses).
package main

import "joyverif/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "U01", Level: "model_checking", Build: u01, Assumptions: []string{"time is the bubble's virtual clock: computation takes no time, only sleeping does", "within one batch only the last release is visible"}},
		{ID: "U02", Level: "model_checking", Build: u02, Assumptions: []string{"network endpoints are replaced at the dial hook, the HTTP transport and the loopback interface"}},
	})
}
