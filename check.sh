#!/bin/bash
# check.sh build | check.sh <property id>   (VERIF_SEED, VERIF_TIER are read by the harness)
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export RUSTUP_TOOLCHAIN=${PBT_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target evidence
build() {
  # cargo decides by mtime; the sources may have been restored with older times, so decide by content
  local h
  h=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum | cut -d' ' -f1)
  if [ "$(cat target/.srchash 2>/dev/null)" != "$h" ]; then
    rm -f "$V/target/.srchash"
    (cd harness && cargo clean --offline --release -p ellipticcurve >/dev/null 2>&1)
  fi
  (cd harness && cargo build --offline --locked --release >"$V/target/build.log" 2>&1) || return 1
  echo "$h" > target/.srchash
}
(
  flock 9
  build
) 9>target/.lock || { tail -60 target/build.log; echo "check.sh: the build of /repo with the harness failed"; exit 2; }
[ "$1" = build ] && exit 0
exec target/release/pbt check "$1"
