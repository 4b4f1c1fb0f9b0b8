#!/bin/bash
# Builds all harness crates against /repo (offline).
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./tools/env.sh
for b in core:core-checks bevyx:bevy-checks bevyx:editor-checks; do
  build_harness ${b%%:*} ${b##*:} || failed=2
done
exit ${failed:-0}
