#!/bin/bash
# check.sh [--build-only | PROPERTY [quick|thorough]]: builds the explorer against /repo's working tree, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/target" "$here/evidence"
(
    flock 9
    # cargo goes by modification times; a tree laid out anew may have any
    sum="$(cd /repo && find src Cargo.toml "$here/mc/src" "$here/mc/Cargo.toml" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$sum" != "$(cat "$here/target/built-from" 2>/dev/null)" ]; then
        : >"$here/target/built-from"
        cargo clean --release --offline --locked --manifest-path "$here/mc/Cargo.toml" -p redox_liner -p mc >/dev/null 2>&1
    fi
    if ! cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" >"$here/target/build.log" 2>&1; then
        grep -E -A12 "^error" "$here/target/build.log" >&2 || tail -20 "$here/target/build.log" >&2
        echo "the explorer does not build against /repo" >&2
        exit 2
    fi
    echo "$sum" >"$here/target/built-from"
) 9>"$here/target/lock" || exit 2
[ "$1" = --build-only ] && exit 0
"$here/target/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
