#!/bin/bash
# usage: models.sh <property> <number of models>
# Generates the models' source and builds the crate `mmodels` (needs build.sh first).
# When the library builds, but a generated model does not, the property is violated.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target"
n=${2:-80}
dir=$PWD/gen/models$n
mkdir -p "$dir/src" || exit 2
put() { # writes a file only if it changes
    if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv "$1.new" "$1"; fi
}
cat >"$dir/Cargo.toml.new" <<EOF
[workspace]

[package]
name = "mmodels$n"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
mcheck = { path = "../../harness" }
mysql-connector = { path = "/repo", default-features = false }
chrono = "0.4.38"

[profile.release]
opt-level = 2
debug = 1
debug-assertions = true
overflow-checks = true
codegen-units = 16
panic = "unwind"

# the rest is shared with the harness
[profile.release.package.mmodels$n]
opt-level = 0
debug = 0
codegen-units = 64
EOF
put "$dir/Cargo.toml"
[ -f "$dir/Cargo.lock" ] || cp harness/Cargo.lock "$dir/Cargo.lock"
target/release/mcheck genmodels 1 "$n" >"$dir/src/main.rs.new" || { echo "ERROR no models"; exit 2; }
put "$dir/src/main.rs"
log="$CARGO_TARGET_DIR/models$n.log"
if cargo build --release --offline --manifest-path "$dir/Cargo.toml" >"$log" 2>&1; then
    exit 0
fi
if grep -q "could not compile \`mmodels$n\`" "$log" && grep -Eq '^ *--> src/main.rs' "$log"; then
    # the first model that cannot be compiled
    line=$(grep -E '^ *--> src/main.rs' "$log" | sed -E 's/.*main.rs:([0-9]+):.*/\1/' | sort -n | head -1)
    g=$(head -n "$line" "$dir/src/main.rs" | grep -oE '^pub mod g[0-9]+' | tail -1 | cut -d' ' -f3)
    mkdir -p replays
    r="$PWD/replays/$1-compile-$g.txt"
    {
        echo "these models cannot be compiled:"
        sed -n "/^pub mod $g {/,/^\/\/ --- end/p" "$dir/src/main.rs"
        grep -E '^error' -A 14 "$log" | head -60
    } >"$r"
    echo "VIOLATION property=$1 replay=$r"
    echo "  signature: compile"
    grep -E '^error' "$log" | head -3 | sed 's/^/  /'
    exit 1
fi
grep -E '^error' -A 12 "$log" | head -60
echo "ERROR build of the models failed (see $log)"
exit 2
