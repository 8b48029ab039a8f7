#!/bin/bash
# build.sh VARIANT OUTBIN WORK: builds the simulator around /repo's working tree.
# VARIANT: core | race | xgo
set -e
here=$(cd "$(dirname "$0")" && pwd)
variant=$1 out=$2 work=$3
repo=${VERIF_REPO:-/repo}
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export HOME=${HOME:-/root} GOFLAGS=
goroot=$(go env GOROOT)
mkdir -p "$work"
std=$(python3 "$here/std/gen.py" "$goroot" "$work/std")
(cd "$here/rewrite" && go build -o "$work/rewrite" .)
# every library package of the module; those of the command line tool only for xgo
pkgs= mains=
for d in $(cd "$repo" && find . -name '*.go' ! -name '*_test.go' ! -path './.*' ! -path '*/testdata/*' ! -path '*/fixtures/*' ! -path './vsimrt/*' -printf '%h\n' | sort -u); do
  case $d in
  ./cli*)
    [ "$variant" = xgo ] || continue
    if (cd "$repo/$d" && grep -qs '^package main' *.go); then
      [ "$d" = ./cli/xgotext ] || continue
      mains="$d=$d/vsimmain"
    fi
    pkgs="$pkgs$d=os>vos,log>vlog,flag>vflag,path/filepath>vfilepath,golang.org/x/tools/go/packages>vpackages;"
    ;;
  *)
    (cd "$repo/$d" && grep -qs '^package main' *.go) && continue
    pkgs="$pkgs$d=os>vos;"
    ;;
  esac
done
cp -r "$here/cmd" "$work/cmd"
[ "$variant" = xgo ] && cp "$here"/xcmd/*.go "$work/cmd/"
"$work/rewrite" -repo "$repo" -out "$work" -pkgs "$pkgs" -mains "$mains" \
  -extra "$repo/vsimrt=$here/rt;$repo/vsimrt/cmd=$work/cmd" -std "$std"
race=
[ "$variant" = race ] && race=-race
cd "$repo"
go build $race -mod=readonly -overlay "$work/overlay.json" -o "$out" ./vsimrt/cmd
