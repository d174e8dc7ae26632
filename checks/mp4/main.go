package main

import "joyverif/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "M01", Level: "model_checking", Build: m01, Assumptions: []string{"files below 4 GB and 13 hours, as 32-bit MP4 boxes hold"}},
		{ID: "M02", Level: "model_checking", Build: m02, Assumptions: []string{"the boxes and fields the library has: other boxes are kept as they are where there is a place for them and passed over elsewhere"}},
		{ID: "M03", Level: "model_checking", Build: m03},
		{ID: "M04", Level: "model_checking", Build: m04},
	})
}
