#!/bin/bash
# bash run.sh check <id>      build the explorer from /repo's working tree and decide property <id>
# bash run.sh replay <file>   re-execute a recorded violation
# The tier is taken from VERIF_TIER (quick by default).
set -u
verif=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
scratch=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/work"
export TMPDIR=$scratch
if ! (cd "$verif/mc" && go build -o "$scratch/mc" . ) >"$scratch/build.log" 2>&1; then
  cat "$scratch/build.log" >&2
  echo "build of the explorer against /repo failed" >&2
  exit 3
fi
case ${1:-} in
check)
  "$scratch/mc" run -prop "$2" -tier "${VERIF_TIER:-quick}" -verif "$verif" -scratch "$scratch/work"
  exit $? ;;
replay)
  "$scratch/mc" replay -verif "$verif" -scratch "$scratch/work" "$2"
  exit $? ;;
list)
  "$scratch/mc" list -tier "${VERIF_TIER:-quick}"
  exit $? ;;
*)
  echo "usage: run.sh check <id> | replay <file> | list" >&2
  exit 2 ;;
esac
