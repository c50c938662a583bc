#!/bin/bash
# Builds the harness against /repo's working tree and checks one property.
#   check.sh <property> [quick|thorough] [scenario]
#   check.sh build
#   check.sh replay <file>
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT=$here CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
log=$(mktemp)
trap 'rm -f "$log"' EXIT

build() { # flags, target dir
    (cd "$here/mc" && RUSTFLAGS="$1" CARGO_TARGET_DIR="$here/mc/target/$2" \
        cargo build --offline) >"$log" 2>&1
}

if build "--cfg figment_mc -Awarnings" hooked; then
    bin=$here/mc/target/hooked/debug/mc
elif build "-Awarnings" plain; then
    # The hooks don't fit the code: threads are then only scheduled at the
    # harness's own points.
    echo "note: built without hooks"
    bin=$here/mc/target/plain/debug/mc
else
    tail -60 "$log" >&2
    echo "ERROR: the harness does not build" >&2
    exit 3
fi

case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
esac

tier=${2:-${VERIF_TIER:-quick}}
"$bin" check "$1" "$tier" ${3:+"$3"}
exit $?
