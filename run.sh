#!/bin/bash
# Usage: run.sh <property> [quick|thorough] [further harness flags]
# Builds the harness against /repo's current working tree and checks one property.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
case $prop in
  C01|C02|C03|C04|C05|C06|C19) cmd=core ;;
  C07|C08) cmd=store ;;
  C17|C18|C22|C23|C26) cmd=net ;;
  *) cmd=engine ;;
esac
work=$(mktemp -d "${TMPDIR:-/tmp}/vpbuild.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
build=(go build -o "$work/$cmd")
case $prop in
  C14|C16)
    # rebuilt with scheduling points before every statement (see DESIGN.md)
    (cd "$here/harness" && go run ./cmd/instr "$work") || exit 3
    build+=(-tags verifsched -overlay "$work/overlay.json")
    [ "$prop" = C14 ] && build+=(-race)
    ;;
esac
[ $cmd = net ] || [ $prop = C27 ] && build+=(-race)
export GORACE="exitcode=0 halt_on_error=0"
(cd "$here/harness" && "${build[@]}" "./cmd/$cmd") || exit 3
"$work/$cmd" -prop "$prop" -tier "$tier" -seed "$seed" "$@"
exit $?
