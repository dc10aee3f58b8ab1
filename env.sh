# Toolchain and flags for building the checkers (sourced by check.sh and setup.sh).
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
# Warnings of the code under test are not ours to judge.
export RUSTFLAGS="--cap-lints=warn"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
sources_hash() {
  ( cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; rustc -V ) | sha256sum | cut -d' ' -f1
}
