# sourced by run.sh: the client's sources are built with dialling redirected
build() {
  mkdir -p "$work/gen" || return 1
  {
    echo '{"Replace": {'
    for f in /repo/format/rtsp/*.go; do
      case $f in *_test.go) continue ;; esac
      b=$(basename "$f")
      sed -E 's#^([[:space:]]*|import[[:space:]]+)"net"#\1net "joyverif/netshim"#; s#^([[:space:]]*|import[[:space:]]+)([A-Za-z_]+)[[:space:]]+"net"#\1\2 "joyverif/netshim"#' "$f" >"$work/gen/$b" || return 1
      echo "\"$f\": \"$work/gen/$b\","
    done
    echo "\"$PWD/checks/rtsp/zz_none.go\": \"\"}}"
  } >"$work/overlay.json"
  go build -ldflags=-checklinkname=0 -overlay "$work/overlay.json" -o "$bin" ./checks/rtsp
}
