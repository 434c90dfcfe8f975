#!/usr/bin/env bash
# Builds everything the checks need, offline, from the committed files and /repo.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p target evidence
unset RUSTFLAGS
for profile in release plain; do
  (cd harness && CARGO_TARGET_DIR="$here/target/main" cargo build --profile $profile --offline --locked -q) 2>/dev/null
  (cd harness && RUSTFLAGS="--cfg geokit_verif" CARGO_TARGET_DIR="$here/target/hooks" cargo build --profile $profile --offline --locked -q --features hooks) 2>/dev/null
done
for profile in release dev; do
  CARGO_TARGET_DIR="$here/target/bin" cargo build --profile $profile --offline --locked -q --manifest-path /repo/Cargo.toml --bin sample_s2 2>/dev/null
done
python3 c31.py build
