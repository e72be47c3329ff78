#!/bin/bash
# Build the harness against /repo's working tree. Cargo goes by modification times; a copy of the
# tree can be older than the last build, so the crates are rebuilt whenever the contents differ.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$(pwd)/harness/target"
stamp="$CARGO_TARGET_DIR/verif.stamp"
now=$(cat /repo/Cargo.toml $(find /repo/src harness/src harness/Cargo.toml harness/Cargo.lock -type f | sort) | sha256sum)
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
    for d in "$CARGO_TARGET_DIR"/release/.fingerprint/ressa-* "$CARGO_TARGET_DIR"/release/.fingerprint/verif-harness-*; do
        [ -d "$d" ] && rm -rf "$d"
    done
fi
mkdir -p evidence
if ! cargo build --release --offline --quiet --manifest-path harness/Cargo.toml 2>evidence/build.log; then
    tail -40 evidence/build.log
    echo "ERROR the harness does not build"
    exit 3
fi
echo "$now" >"$stamp"
