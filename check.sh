#!/bin/bash
# Decides one property against /repo's current working tree.
#   check.sh <ID> [--thorough] [--replay FILE]
# Exit codes: 0 held on everything observed, 1 violation, 2 no verdict (e.g. the tree does not build).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
shift
tier=""
replay=""
while [ $# -gt 0 ]; do
    case "$1" in
        --thorough) tier="--thorough" ;;
        --replay) replay="$2"; shift ;;
        *) echo "ERROR: unknown argument $1"; exit 2 ;;
    esac
    shift
done
export VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
mkdir -p "$here/target" "$here/evidence"

build() {
    # Time stamps may lie (copies, checkouts): what is under test is always compiled anew.
    find "$here/target/debug/.fingerprint" -maxdepth 1 -name 'bytecodec-*' -exec rm -rf {} + 2>/dev/null
    (cd "$here/monitor" && cargo build --offline) >"$here/evidence/.build-$id.log" 2>&1
}
if ! (flock 9; build) 9>"$here/target/.verif-lock"; then
    echo "ERROR: the monitor does not build against /repo"
    grep -E '^error' -A6 "$here/evidence/.build-$id.log" | head -40
    exit 2
fi
rm -f "$here/evidence/.build-$id.log"
mon="$here/target/debug/monitor"

if [ -n "$replay" ]; then
    get() { sed -n "s/^$1=//p" "$replay" | head -1; }
    if [ "$id" = C30 ]; then
        exec python3 "$here/tools/portable.py" --replay "$replay"
    fi
    if [ -n "$(get tool)" ]; then
        exec python3 "$here/tools/ub.py" --replay "$replay"
    fi
    t=""
    [ "$(get tier)" = thorough ] && t="--thorough"
    exec "$mon" "$id" --dir "$here" --seed "$(get seed)" $t --one "$(get stage)" "$(get idx)"
fi

if [ "$id" = C30 ]; then
    exec python3 "$here/tools/portable.py" $tier
fi
"$mon" "$id" --dir "$here" --seed "$VERIF_SEED" $tier
code=$?
if [ "$id" = C27 ] && [ $code -eq 0 ]; then
    python3 "$here/tools/ub.py" $tier
    code=$?
fi
exit $code
