module joyverif

go 1.25

require github.com/nareix/joy5 v0.0.0

require github.com/pkg/errors v0.8.0 // indirect

replace github.com/nareix/joy5 => /repo
