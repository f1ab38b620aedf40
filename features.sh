#!/bin/bash
# usage: features.sh
# Builds what C30 needs: sixteen builds of harness/src/feat.rs, one for every subset of the library's
# optional features, and a crate with no other dependency for each of them (which shows features
# of dependencies that the library forgets to ask for).
# A subset that cannot be compiled although the full library can is a violation.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
root=$PWD
lite=$root/target/lite
mkdir -p "$lite/bin" "$lite/log" || exit 2
hash=$(cd /repo && find src macros Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
names=(time tcp rsa json)
lib=(time tcpstream caching-sha2-password serde)
put() { if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv "$1.new" "$1"; fi; }

# the subsets of two of the features in one target directory, one after the other
group() { # $1: 0..3, time and tcp
    local t=$lite/t$1
    mkdir -p "$t"
    if [ "$hash" != "$(cat "$t/repo.hash" 2>/dev/null)" ]; then
        rm -rf "$t"/lite/.fingerprint/mysql-connector-* "$t"/debug/.fingerprint/mysql-connector-*
        echo "$hash" >"$t/repo.hash"
    fi
    for r in 0 1 2 3; do
        local bits=$(($1 + 4 * r)) f="" l="" n=""
        for i in 0 1 2 3; do
            if (((bits >> i) & 1)); then
                f=$f,${names[i]}
                l="$l,\"${lib[i]}\""
                n=$n-${names[i]}
            fi
        done
        n=${n#-}
        n=${n:-none}
        # nothing but the library
        local d=$root/gen/features/$n
        mkdir -p "$d/src"
        cat >"$d/Cargo.toml.new" <<EOF
[workspace]

[package]
name = "subset-$n"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
mysql-connector = { path = "/repo", default-features = false, features = [${l#,}] }
EOF
        put "$d/Cargo.toml"
        cat >"$d/src/lib.rs.new" <<EOF
use mysql_connector::macros::{ActiveModel, FromQueryResult, IntoQuery, ModelData};
pub use mysql_connector::*;

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery)]
#[mysql_connector(table = "t", primary = "id", auto_increment = "true")]
pub struct Model {
    pub id: u32,
    pub name: String,
}
EOF
        put "$d/src/lib.rs"
        [ -f "$d/Cargo.lock" ] || cp harness/Cargo.lock "$d/Cargo.lock"
        if ! CARGO_TARGET_DIR=$t cargo check --offline --manifest-path "$d/Cargo.toml" >"$lite/log/$n.check" 2>&1; then
            echo "$n" >>"$lite/failed-check"
        fi
        if CARGO_TARGET_DIR=$t cargo build --profile lite --offline --manifest-path harness/Cargo.toml --no-default-features --features "${f#,}" >"$lite/log/$n.build" 2>&1; then
            cmp -s "$t/lite/mcheck" "$lite/bin/$n" || { cp "$t/lite/mcheck" "$lite/bin/$n.new" && mv "$lite/bin/$n.new" "$lite/bin/$n"; }
        else
            rm -f "$lite/bin/$n"
            echo "$n" >>"$lite/failed-build"
        fi
    done
}
rm -f "$lite/failed-check" "$lite/failed-build"
for g in 0 1 2 3; do group $g & done
wait
report() { # $1: subset, $2: log
    mkdir -p replays
    r=$root/replays/C30-compile-$1.txt
    { echo "features: $1"; grep -E '^error' -A 14 "$2" | head -60; } >"$r"
    echo "VIOLATION property=C30 replay=$r"
    echo "  signature: compile:$1"
    grep -E '^error' "$2" | head -3 | sed 's/^/  /'
    exit 1
}
# the library's own sources, or its dependencies' interfaces, do not fit together
for n in $(cat "$lite/failed-check" "$lite/failed-build" 2>/dev/null | sort -u); do
    for log in "$lite/log/$n.check" "$lite/log/$n.build"; do
        if grep -q 'could not compile `mysql-connector\(-macros\)\?`' "$log"; then report "$n" "$log"; fi
        if grep -q 'could not compile `subset-' "$log"; then report "$n" "$log"; fi
    done
    # a build of the harness can fail only if the interface of the library differs between the features
    if grep -q 'could not compile `mcheck`' "$lite/log/$n.build"; then report "$n" "$lite/log/$n.build"; fi
    grep -E '^error' -A 12 "$lite/log/$n.check" "$lite/log/$n.build" | head -40
    echo "ERROR build failed with the features $n (see $lite/log)"
    exit 2
done
