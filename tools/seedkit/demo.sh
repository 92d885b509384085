#!/bin/bash
# Runs the demonstration beside this file against the crate in the current directory.
# Exit 0: the property holds here. Anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= TZ=UTC
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$here/common.rs" "$work/src/" || exit 3
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ruplicity = { path = "$repo" }
time = "0.1"
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 3
mkdir scratch
if ! CARGO_TARGET_DIR="$work/target" timeout 240 cargo build --offline -q 2> build.log; then
    cat build.log
    exit 3
fi
cd scratch || exit 3
timeout 40 "$work/target/debug/demo"
rc=$?
echo "demonstration: exit $rc"
exit $rc
