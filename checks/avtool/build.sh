# sourced by run.sh: the tool's sources are rewritten as for the relay and
# built together with the harness in a package that exists only as overlay;
# the RTMP sources are built with dialling redirected and with their goroutines
# known to the scheduler.
# Scratch files are kept in memory.
if shm=$(mktemp -d /dev/shm/joyverif-XXXXXX); then
  trap 'rm -rf "$work" "$shm"' EXIT
  export JOYVERIF_WORK=$shm
fi
build() {
  mkdir -p "$work/gen" "$work/rtmp" && go build -o "$work/instr" ./tools/instr || return 1
  "$work/instr" /repo/cmd/avtool "$work/gen" >"$work/files" || return 1
  mkdir -p "$work/rtmp0" && "$work/instr" -go /repo/format/rtmp "$work/rtmp0" >"$work/rtmpfiles" || return 1
  {
    echo '{"Replace": {'
    for b in $(cat "$work/rtmpfiles"); do
      f=/repo/format/rtmp/$b
      sed -E 's#^([[:space:]]*|import[[:space:]]+)"net"#\1net "joyverif/netshim"#; s#^([[:space:]]*|import[[:space:]]+)([A-Za-z_]+)[[:space:]]+"net"#\1\2 "joyverif/netshim"#' "$work/rtmp0/$b" >"$work/rtmp/$b" || return 1
      echo "\"$f\": \"$work/rtmp/$b\","
    done
    for f in $(cat "$work/files"); do echo "\"$PWD/checks/avtool_gen/$f\": \"$work/gen/$f\","; done
    for f in checks/avtool/harness/*.go; do echo "\"$PWD/checks/avtool_gen/vh_$(basename "$f")\": \"$PWD/$f\","; done
    echo "\"$PWD/checks/avtool_gen/zz.go\": \"\"}}"
  } >"$work/overlay.json"
  go build -tags avtoolgen -ldflags=-checklinkname=0 -overlay "$work/overlay.json" -o "$bin" ./checks/avtool_gen
}
