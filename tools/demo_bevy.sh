#!/bin/bash
# Runs test.rs (beside this file) as an integration test of one of the bevy crates in the current
# directory, with the settings of the normal build, so that its build products are reused.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
crate=$(cat "$here/crate")
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
dir="$repo/crates/$crate/tests"
made=
[ -d "$dir" ] || { mkdir "$dir"; made=1; }
name=zz_demo_$$
cp "$here/test.rs" "$dir/$name.rs"
trap 'rm -f "$dir/$name.rs"; [ -n "$made" ] && rmdir "$dir"' EXIT
timeout 280 cargo test --workspace --all-features --features bevy/x11 --offline --test $name 2>&1 | tail -40
rc=${PIPESTATUS[0]}
rm -f "$repo"/target/debug/deps/"$name"-*
exit $rc
