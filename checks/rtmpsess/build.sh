# sourced by run.sh: the virtual clock is reached through a linkname
build() { go build -ldflags=-checklinkname=0 -o "$bin" ./checks/rtmpsess; }
