#!/bin/bash
# replay.sh FILE: repeats the execution in a replay file against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
prop=$(sed -n 's/^ "property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1)
case $prop in
C01|C04|C06|C18) variant=race ;;
C19|C20) variant=xgo ;;
*) variant=core ;;
esac
work=$(mktemp -d /tmp/vsim-build.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$here/sim/build.sh" $variant "$work/sim" "$work/b" || exit 2
"$work/sim" replay "$file"
