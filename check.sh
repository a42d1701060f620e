#!/bin/bash
# usage: check.sh ID [quick|thorough]   or   check.sh ID replay FILE
# Builds the harness from /verif against /repo's working tree in a scratch folder and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1 mode=${2:-${VERIF_TIER:-quick}}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=${CGO_ENABLED:-0}
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
tags=
build() { # directory, binary
  cp -r "$here/$1" "$work/$1" && (cd "$work/$1" && go build -tags "$tags" -o "$work/$2" .) || { echo "the harness does not build against /repo" >&2; exit 3; }
}
scheduled() { # builds with the race detector and the controlled scheduler
  export CGO_ENABLED=1
  cp -r "$here/harness" "$work/harness" || exit 3
  cd "$work/harness" || exit 3
  mkdir "$work/overlay"
  if CGO_ENABLED=0 go build -o "$work/schedgen" ./schedgen && "$work/schedgen" "$work/overlay" &&
    go build -race -tags sched -overlay "$work/overlay/overlay.json" -o "$work/harness.bin" .; then
    :
  else
    echo "cannot control the scheduling: only runs it freely under the race detector"
    go build -race -tags sched -ldflags "-X main.controlled=no" -o "$work/harness.bin" . || { echo "the harness does not build against /repo" >&2; exit 3; }
  fi
  cd "$here"
}
case $id in
C15) scheduled; exec_bin=harness.bin ;;
C23) build harness plain.bin && rm -rf "$work/harness" && scheduled; exec_bin=harness.bin; export VERIF_PLAIN=$work/plain.bin ;;
C21) tags=plugin; build harness harness.bin && exec_bin=harness.bin ;;
*) build harness harness.bin && exec_bin=harness.bin ;;
esac
case $mode in
build) exit 0 ;;
replay) "$work/$exec_bin" replay "$id" "$3" ;;
*) "$work/$exec_bin" run "$id" "$mode" ;;
esac
rc=$?
[ $rc -le 1 ] || exit 3
exit $rc
