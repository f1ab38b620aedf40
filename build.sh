#!/bin/bash
# usage: build.sh [notime]
# Builds the harness against /repo's current working tree; with "notime" the build without the
# library's `time` feature (a `sleep` function is passed in the options).
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target"
args=()
if [ "$1" = notime ]; then
    export CARGO_TARGET_DIR="$PWD/target/notime"
    args=(--no-default-features --features full,rsa,json)
fi
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
# the library is rebuilt whenever its source differs, whatever the files' times say
hash=$(cd /repo && find src macros Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$hash" != "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/mysql-connector-*
    echo "$hash" >"$CARGO_TARGET_DIR/repo.hash"
fi
if ! cargo build --release --offline --manifest-path harness/Cargo.toml "${args[@]}" >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" | head -80
    echo "ERROR build failed (see $log)"
    exit 2
fi
