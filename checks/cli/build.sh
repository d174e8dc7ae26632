# sourced by run.sh: the tool itself is built, too
build() {
  (cd /repo && go build -o "$work/avtool" ./cmd/avtool) && go build -o "$bin" ./checks/cli
}
