package main

import "joyverif/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "H01", Level: "model_checking", Build: h01, Assumptions: []string{"NAL units obey emulation prevention and do not end with a zero byte, as every legal encoder guarantees", "byte strings that are complete in both forms are left out: nothing in them tells the form"}},
		{ID: "H02", Level: "model_checking", Build: h02, Assumptions: []string{"parameter sets come from an independent writer of the standard's syntax"}},
		{ID: "H03", Level: "model_checking", Build: h03, Assumptions: []string{"parameter sets come from an independent writer of the standard's syntax; profile 144 (withdrawn) is left out"}},
		{ID: "C01", Level: "model_checking", Build: c01},
		{ID: "C02", Level: "model_checking", Build: c02, Assumptions: []string{"any buffer fullness is accepted, the standard leaves it to the encoder"}},
	})
}
