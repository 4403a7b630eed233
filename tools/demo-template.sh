#!/bin/bash
# Builds demo.rs (beside this file) against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/home"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
authors = ["demo"]
edition = "2018"
[workspace]
[dependencies]
aeonflux = { path = "$repo/aeonflux", default-features = false, features = ["std", "nightly", "u64_backend"] }
signal-credential = { path = "$repo/signal-credential", default-features = false, features = ["std", "nightly", "u64_backend"] }
curve25519-dalek = { version = "0.21", default-features = false, features = ["serde", "std", "nightly", "u64_backend"] }
merlin = "0.2"
rand = "0.5"
rand_core = "0.2"
bincode = "1"
serde_json = "1"
[profile.dev]
opt-level = 1
debug = false
T
cat > "$work/home/config" <<T
[source.crates-io]
replace-with = "vendored-sources"
[source.vendored-sources]
directory = "/opt/vp/vendor"
T
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2019-01-15 CARGO_HOME=$work/home CARGO_TARGET_DIR=$work/target CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC RUSTC_WRAPPER
cd "$work" && cargo build >build.log 2>&1 || { tail -30 build.log; exit 4; }
timeout 200 "$work/target/debug/demo"
