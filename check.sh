#!/bin/bash
# check.sh PROP [quick|thorough]   run the check of one property
# check.sh replay FILE             execute a replay file again
# check.sh build                   only build
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$HERE"
export CARGO_TARGET_DIR="$HERE/target"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cap-lints=allow"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence" "$HERE/replays"

build() {
    (
        flock 9
        # cargo goes by modification times; go by contents, so that no change can be missed
        now=$( { find /repo/src /repo/Cargo.toml /repo/build.rs "$HERE/sim/src" "$HERE/sim/Cargo.toml" -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; rustc --version; } | sha256sum)
        if [ "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" != "$now" ] || [ ! -x "$CARGO_TARGET_DIR/release/flatsim" ]; then
            rm -f "$CARGO_TARGET_DIR/.sources"
            rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/flatdata-* "$CARGO_TARGET_DIR"/release/.fingerprint/flatsim-*
            cargo build --release --offline --locked --manifest-path "$HERE/sim/Cargo.toml" >"$CARGO_TARGET_DIR/build.log" 2>&1 || exit 1
            echo "$now" >"$CARGO_TARGET_DIR/.sources"
        fi
    ) 9>"$CARGO_TARGET_DIR/.lock"
}

if ! build; then
    echo "build failed:" >&2
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2
    exit 2
fi
BIN="$CARGO_TARGET_DIR/release/flatsim"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    gen) shift; exec "$BIN" gen "$@" ;;
    *) exec "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
