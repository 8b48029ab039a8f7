#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. This only makes
# sure that the tools are there and fills the build cache where it is kept.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/vsim-build.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
"$here/sim/build.sh" core "$work/sim" "$work/b"
