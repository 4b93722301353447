#!/bin/bash
# the emulator and the hostile workload with AddressSanitizer
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
RUSTFLAGS="-Zsanitizer=address --cfg carron_verif -Awarnings" cargo +nightly build --offline --quiet --features asan --bin hostile --target x86_64-unknown-linux-gnu --target-dir target-asan
