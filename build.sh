#!/bin/bash
# Builds the model checker and the litcheck binary from /repo's current working tree, offline.
# Output goes to /verif/target (git-ignored); nothing is written to /repo.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export LANG="${LANG:-C.UTF-8}" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL CARGO_BUILD_TARGET
unset FILECHECK_OPTS LITCHECK_TRACE LITCHECK_TRACE_TIMING LIT_FILTER LIT_FILTER_OUT RUST_BACKTRACE
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export MC_ROOT="$here"
export CARGO_TARGET_DIR="$here/target"
log="$here/target/build.log"
mkdir -p "$here/target"
cargo build --offline --locked --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1 || {
    echo "BUILD FAILED" >&2
    tail -40 "$log" >&2
    exit 2
}
