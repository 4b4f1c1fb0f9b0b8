#!/bin/bash
# replay.sh <replay file>: re-runs one stored counterexample against /repo's current tree.
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./tools/env.sh
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f")
case "$id" in C28|C29|C30|C31|C32|C33|C41) crate=bevyx bin=bevy-checks ;; C35|C36|C37|C38|C39) crate=bevyx bin=editor-checks ;; *) crate=core bin=core-checks ;; esac
build_harness $crate $bin || exit 2
ulimit -v 20000000
exec "$VERIF_ROOT/target/$crate/release/$bin" replay "$f"
