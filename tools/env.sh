# Sourced by setup.sh, check.sh and replay.sh.
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_RELEASE_LTO
build_harness() { # <crate> [<binary>]
  export CARGO_TARGET_DIR="$VERIF_ROOT/target/$1"
  mkdir -p "$CARGO_TARGET_DIR"
  export RUSTFLAGS="--cfg rerecast_verif -Awarnings"
  flock "$CARGO_TARGET_DIR/.verif-lock" cargo build --release --offline --locked --manifest-path "$VERIF_ROOT/$1/Cargo.toml" ${2:+--bin "$2"} >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -60 "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
}
