#!/bin/bash
# run.sh ID [-tier quick|thorough] [-replay FILE]: rebuilds the checker of a
# property from /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null || export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
id=$1; shift
case $id in
  R0[1-6]) grp=rtmpchunk ;;
  R0*|R1*) grp=rtmpsess ;;
  S0*) grp=pubsub ;;
  F0*) grp=flv ;;
  A0*) grp=amf ;;
  H0*|C0*) grp=codec ;;
  B0*) grp=bits ;;
  M0*) grp=mp4 ;;
  T0*) grp=rtsp ;;
  U0*) grp=util ;;
  V06) grp=cli ;;
  V0*) grp=avtool ;;
  *) echo "unknown property $id"; exit 2 ;;
esac
work=$(mktemp -d /tmp/joyverif-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export JOYVERIF_WORK=$work
bin=$work/check
build() { go build -o "$bin" ./checks/$grp; }
[ -f checks/$grp/build.sh ] && . checks/$grp/build.sh
if ! build >"$work/build.log" 2>&1; then
  cat "$work/build.log"
  echo "could not build the checker of $id"
  exit 2
fi
"$bin" -prop "$id" -evidence "evidence/$id.json" -replays replays -known known_findings.json "$@"
exit $?
