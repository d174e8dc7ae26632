// RTSP checks: T01 (RTP payloads), T02 (sessions), T03 (malformed input),
// T04 (session descriptions), T05 (time limits).
package main

import "joyverif/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "T01", Level: "model_checking", Build: t01, Assumptions: []string{"RTP timestamps do not decrease (no B-frames)", "packetisation modes 0 and 1, AAC access units in order"}},
		{ID: "T02", Level: "model_checking", Build: t02, Assumptions: []string{"relative control addresses are relative to the address of the request", "the server honours the channels asked for"}},
		{ID: "T03", Level: "model_checking", Build: t03},
		{ID: "T04", Level: "model_checking", Build: t04},
		{ID: "T05", Level: "model_checking", Build: t05, Assumptions: []string{"the limit set on the client applies to each wait for the server"}},
	})
}
