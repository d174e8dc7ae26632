# sourced by run.sh: the relay's sources are rewritten for the scheduler
# and built together with the harness in a package that exists only as overlay.
build() {
  mkdir -p "$work/gen" && go build -o "$work/instr" ./tools/instr || return 1
  "$work/instr" /repo/cmd/avtool "$work/gen" >"$work/files" || return 1
  race=; [ "$id" = S05 ] && race=-race
  # first with the harness inside the package, else with sessions only
  for tags in relaygen,relayinner,relayreg relaygen,relayinner relaygen,relayreg relaygen; do
    {
      echo '{"Replace": {'
      for f in $(cat "$work/files"); do echo "\"$PWD/checks/pubsub_gen/$f\": \"$work/gen/$f\","; done
      for f in checks/pubsub/harness/*.go; do echo "\"$PWD/checks/pubsub_gen/vh_$(basename "$f")\": \"$PWD/$f\","; done
      echo '"": ""}}'
    } | sed 's/^"": "".*/"'"${PWD//\//\\/}"'\/checks\/pubsub_gen\/zz.go": ""}}/' >"$work/overlay.json"
    go build $race -tags "$tags" -ldflags=-checklinkname=0 -overlay "$work/overlay.json" -o "$bin" ./checks/pubsub_gen && {
      [ "$tags" = relaygen,relayinner,relayreg ] || echo "note: the relay's internals changed shape; checking with $tags only"
      return 0
    }
  done
  return 1
}
