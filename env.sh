# Build settings shared by the checks (sourced by check.sh)
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export VERIF_BINS="$CARGO_TARGET_DIR/repo/debug"
mkdir -p "$CARGO_TARGET_DIR"
quiet() { # run a build command, show its output only when it fails
    local log="$CARGO_TARGET_DIR/build.$$.log"
    if "$@" > "$log" 2>&1; then rm -f "$log"; else grep -aE -A14 "^error" "$log" | head -n ${VERIF_LOG_LINES:-120} >&2; rm -f "$log"; echo "ERROR: build failed: $*" >&2; return 1; fi
}
build_core() { quiet cargo build --offline --manifest-path "$VERIF_DIR/core/Cargo.toml"; }
build_app() { quiet cargo build --offline --manifest-path "$VERIF_DIR/app/Cargo.toml"; }
build_bins() {
    quiet cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$CARGO_TARGET_DIR/repo" \
        -p crofiler -p simpp -p cmakeperf --bins
}
build_delay() { quiet cargo build --offline --manifest-path "$VERIF_DIR/delay/Cargo.toml"; }
