#!/bin/bash
# usage: check.sh <property id>        rebuild the harness against /repo's working tree and run the check
#        check.sh replay <file>        run the trial of a replay file again
#        check.sh build                only build
# VERIF_SEED and VERIF_TIER (quick, thorough) select the seed and the depth.
cd "$(dirname "$0")/harness" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
export RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg carron_verif"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
if ! cargo build --offline --quiet >"$log" 2>&1; then
    echo "harness build failed"
    tail -60 "$log"
    exit 2
fi
asan() {
    if ! ./build-asan.sh >"$log" 2>&1; then
        echo "harness build failed"
        tail -60 "$log"
        exit 2
    fi
}
tsan() {
    if ! ./build-tsan.sh >"$log" 2>&1; then
        echo "harness build failed"
        tail -60 "$log"
        exit 2
    fi
}
difflog() {
    rm -f "$PWD/target/debug/difflog"
    cargo build --offline --quiet --features difflog --bin difflog >"$log" 2>&1 || echo "no difflog program"
}
bin=target/debug/monitor
export DIFFLOG_BIN="$PWD/target/debug/difflog"
export HOSTILE_BIN="$PWD/target-asan/x86_64-unknown-linux-gnu/debug/hostile"
export RACES_BIN="$PWD/target-tsan/x86_64-unknown-linux-gnu/debug/races"
export CARRON_TSAN_BIN="$PWD/target-tsan/x86_64-unknown-linux-gnu/debug/carron-tsan"
export CARRON_BIN="$PWD/target/debug/carron"
case "$1" in
build) asan; tsan; difflog ;;
replay)
    case "$2" in *C24*) asan ;; *C34*) tsan ;; *C26*) difflog ;; esac
    "$bin" replay "$2" ;;
*)
    [ "$1" = C24 ] && asan
    [ "$1" = C34 ] && tsan
    [ "$1" = C26 ] && difflog
    "$bin" check "$1" ;;
esac
