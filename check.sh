#!/bin/bash
# check.sh <property> [quick|thorough]          run the check of one property against /repo's working tree
# check.sh <property> --replay <file>           run one recorded case and print it
# check.sh --build                              only build
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
BUILD="${DBC_BUILD:-$HERE/build}"
export RUSTUP_TOOLCHAIN="${DBC_TOOLCHAIN:-1.85.0}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR="$BUILD/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
ID="${1:?property}"
MODE="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
[[ "$SEED" =~ ^[0-9]+$ ]] || SEED=1
mkdir -p "$BUILD" "$HERE/evidence"
ulimit -v unlimited 2>/dev/null

build() {
    exec 9>"$BUILD/lock"
    flock 9
    python3 "$HERE/tools/sync.py" >&2 || { echo "cannot copy /repo" >&2; return 2; }
    cd "$HERE/harness" || return 2
    if ! cargo build --offline >"$BUILD/cargo.log" 2>&1; then
        # the two source files that /repo's own build leaves out may be broken without anyone noticing
        python3 "$HERE/tools/sync.py" --fallback >&2
        if cargo build --offline >"$BUILD/cargo.log" 2>&1; then
            echo "note: built with the pinned versions of the files that /repo's build leaves out" >&2
        else
            # the SDK's interface may have changed: without it only C18 cannot be decided
            python3 "$HERE/tools/sync.py" >&2
            cp "$BUILD/cargo.log" "$BUILD/cargo-1.log"
            if [ "$ID" = C18 ] || ! cargo build --offline --no-default-features >"$BUILD/cargo.log" 2>&1; then
                tail -40 "$BUILD/cargo-1.log" >&2
                echo "the harness does not build against /repo" >&2
                return 2
            fi
            echo "note: built without the SDK, whose interface has changed; C18 cannot be decided" >&2
        fi
    fi
    flock -u 9
    exec 9>&-
    cd "$HERE" || return 2
}

build || exit 2
[ "$ID" = --build ] && exit 0
BIN="$CARGO_TARGET_DIR/debug/dbc-verif"
if [ "$MODE" = --replay ]; then
    exec "$BIN" replay "$ID" --file "${3:?file}"
fi
TMP="$(mktemp -d "${TMPDIR:-/tmp}/dbcv.XXXXXX")"
trap 'rm -rf "$TMP"' EXIT
mkdir -p "$HERE/replays"
"$BIN" run "$ID" --tier "$MODE" --seed "$SEED" --tmp "$TMP" \
    --evidence "$HERE/evidence/$ID.json" --replay-out "$HERE/replays/$ID.json" --known "$HERE/known-findings.txt" ${CASES:+--cases $CASES} ${VERBOSE:+--verbose 1}
