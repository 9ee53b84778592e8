#!/bin/bash
# check.sh ID [--thorough]     decides one property on /repo's current working tree
# check.sh --replay FILE       runs one recorded case again
# check.sh --build             only builds
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
REPO=/repo
T="$V/target"
mkdir -p "$T"
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
build() {
    exec 9>"$T/.lock"
    flock 9
    # cargo trusts time stamps; copies of the tree may have any, so compare contents
    local now
    now=$( (cd "$REPO" && find Cargo.toml Cargo.lock src build.rs -type f 2>/dev/null | sort | xargs sha256sum; sha256sum "$V"/harness/Cargo.* "$V"/harness/src/*.rs "$V"/harness/src/*/*.rs) | sha256sum)
    if [ ! -f "$T/.built" ] || [ "$(cat "$T/.built")" != "$now" ]; then
        rm -f "$T/.built"
        (cd "$V/harness" && cargo clean --offline --release --target-dir "$T" -p telda2 -p vp) >/dev/null 2>&1
        if ! (cd "$V/harness" && cargo build --offline --release --target-dir "$T" && cargo build --offline --release --target-dir "$T" -p telda2 --bins) >"$T/build.log" 2>&1; then
            tail -40 "$T/build.log"
            echo "CHECK-ERROR: the harness or /repo does not build"
            flock -u 9
            return 1
        fi
        echo "$now" >"$T/.built"
    fi
    flock -u 9
    exec 9>&-
}
build || exit 2
export VP_VERIF="$V" VP_BIN="$T/release"
case "${1:-}" in
--build) exit 0 ;;
--replay) exec "$T/release/vp" replay "$2" ;;
"") echo "usage: check.sh ID [--thorough] | --replay FILE | --build"; exit 2 ;;
*) exec "$T/release/vp" run "$@" ;;
esac
