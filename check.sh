#!/bin/bash
# check.sh <ID>: builds the harness against /repo's current tree and runs one property.
# Exit 0 = held, 1 = VIOLATION line printed, anything else = error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./tools/env.sh
case "$1" in
  C28|C29|C30|C31|C32|C33|C41) crate=bevyx bin=bevy-checks ;;
  C35|C36|C37|C38|C39) crate=bevyx bin=editor-checks ;;
  *) crate=core bin=core-checks ;;
esac
build_harness $crate $bin || { echo "BUILD ERROR of $crate" >&2; exit 2; }
ulimit -v 20000000
exec "$VERIF_ROOT/target/$crate/release/$bin" run "$@"
