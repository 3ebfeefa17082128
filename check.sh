#!/bin/bash
# check.sh PROP TIER [CASE] - rebuild the harness against /repo's working tree
# and explore one property. Exit 0 held, 1 violation, 2 could not be built.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; only=${3:-}
. "$here/env.sh"
mkdir -p "$here/build" "$here/evidence"
bin="$here/build/mc.$prop.$$"
export LRBIN="$here/build/lr.$prop.$$"
export TMPDIR="$here/build/tmp.$prop.$$"
mkdir -p "$TMPDIR"
trap 'rm -rf "${bin:?}" "${bin:?}.race" "${LRBIN:?}" "${TMPDIR:?}"' EXIT
case $prop in
  C15) bash "$here/lr/prepare.sh" "$LRBIN" real || exit 2 ;;
  C16|C17|C18) bash "$here/lr/prepare.sh" "$LRBIN" standin || exit 2 ;;
esac
build=()
if [ "$prop" = C21 ]; then
  export SCHEDDIR="$TMPDIR/sched"
  (cd "$here/harness" && go run ./cmd/instr "$SCHEDDIR") || { echo "instrumentation failed" >&2; exit 2; }
  (cd "$here/harness" && go build -race -o "$bin.race" ./cmd/race) && export RACEBIN="$bin.race" || echo "no race build" >&2
  build=(-overlay "$SCHEDDIR/overlay.json" -modfile "$SCHEDDIR/go.mod" -tags sched)
fi
(cd "$here/harness" && go build "${build[@]}" -o "$bin" ./cmd/mc) || { echo "build failed" >&2; exit 2; }
args=(-prop "$prop" -verif "$here")
[ "$tier" = thorough ] && args+=(-thorough)
[ -n "$only" ] && args+=(-case "$only")
"$bin" "${args[@]}"
