# Sourced: the repository's own toolchain, with a cargo home of our own.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2019-01-15
export CARGO_HOME=$VERIF/.cargo-home
export CARGO_TARGET_DIR=$VERIF/target
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true RUSTC_WRAPPER=$VERIF/sim/rustc-wrap.sh RUST_BACKTRACE=0
unset RUSTC RUSTFLAGS
if [ ! -e "$CARGO_HOME/config" ]; then
    mkdir -p "$CARGO_HOME"
    cat > "$CARGO_HOME/config" <<'CFG'
[source.crates-io]
replace-with = "vendored-sources"

[source.vendored-sources]
directory = "/opt/vp/vendor"
CFG
fi
