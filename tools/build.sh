#!/bin/bash
# usage: build.sh OUTDIR [--sched]   builds OUTDIR/mc from /repo's working tree
set -e
. /opt/vp/env.sh
out=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
mkdir -p "$out"
python3 "$here/tools/mkoverlay.py" "$out" "$repo" "$here" "$@"
race=""
[ "$1" = --sched ] && race=-race
cd "$repo"
go build $race -overlay "$out/overlay.json" -o "$out/mc" ./zzverif/mc
