#!/bin/bash
# determinism.sh [N] [FROM]: every property, N seeds, in processes that start at
# different offsets: what a seed does must not depend on the process or on what
# ran before it. Prints a line per property; exit 1 if any differs.
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-400} from=${2:-1000}
work=$(mktemp -d /tmp/vsim-det.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$here/sim/build.sh" core "$work/core" "$work/a" >"$work/log" 2>&1 || { cat "$work/log"; exit 2; }
"$here/sim/build.sh" xgo "$work/xgo" "$work/b" >"$work/log" 2>&1 || { cat "$work/log"; exit 2; }
one() {
  p=$1 bin=core k=$n
  case $p in C19|C20) bin=xgo; k=$((n / 4)) ;; esac
  "$work/$bin" digest $p $from $k >"$work/$p.1" 2>&1 &
  "$work/$bin" digest $p $((from + k / 3)) $((k - k / 3)) >"$work/$p.2" 2>&1 &
  GOGC=20 "$work/$bin" digest $p $from $k >"$work/$p.3" 2>&1 &
  wait
  if cmp -s "$work/$p.1" "$work/$p.3" && tail -n +$((k / 3 + 1)) "$work/$p.1" | cmp -s - "$work/$p.2"; then
    echo "$p: $k seeds identical in 3 processes"
  else
    echo "$p: DIFFERS"; diff "$work/$p.1" "$work/$p.3" | head -4
    tail -n +$((k / 3 + 1)) "$work/$p.1" | diff - "$work/$p.2" | head -4
    return 1
  fi
}
bad=0
for p in $(cat "$here/tools/claimed"); do one $p || bad=1; done
exit $bad
