#!/bin/bash
# check.sh PROPERTY [TIER]: builds the simulator around /repo's working tree and
# searches for a violation of PROPERTY. Exit 0: none found; 1: VIOLATION printed.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1 tier=${2:-${VERIF_TIER:-quick}}
case $prop in
C01|C04|C06|C18) variant=race ;;
C19|C20) variant=xgo ;;
*) variant=core ;;
esac
work=$(mktemp -d /tmp/vsim-build.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
if ! "$here/sim/build.sh" $variant "$work/sim" "$work/b" >"$work/log" 2>&1; then
  echo "the simulator does not build:" >&2
  tail -50 "$work/log" >&2
  exit 2
fi
if [ $prop = C18 ]; then # most workers without the race detector
  "$here/sim/build.sh" core "$work/fast" "$work/c" >>"$work/log" 2>&1 && export VERIF_FAST="$work/fast"
fi
VERIF_KNOWN="$here/known-findings.txt" "$work/sim" check "$prop" "$tier" "$here"
