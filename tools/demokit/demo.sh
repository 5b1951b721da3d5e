#!/bin/sh
# Runs demo.rs as an integration test of hudi-core in a scratch copy of the workspace (cwd).
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
export HOME=/root RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$repo/target"
unset VIRTUAL_ENV PYO3_PYTHON PYTHONPATH RUSTFLAGS
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/ws" "$w/tmp"
for f in Cargo.toml Cargo.lock rust-toolchain.toml README.md crates; do [ -e "$f" ] && cp -r "$f" "$w/ws/"; done
mkdir "$w/ws/python" && cp -r python/Cargo.toml python/src "$w/ws/python/"
mkdir -p "$w/ws/crates/core/tests"
cat "$here/kit.rs" "$here/demo.rs" > "$w/ws/crates/core/tests/demo.rs"
cd "$w/ws" && TMPDIR="$w/tmp" timeout 280 cargo test --workspace --all-features --offline -q --test demo -- --test-threads 1
