#!/bin/bash
# the emulator, and several of it in one process, with ThreadSanitizer (the standard library included)
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
RUSTFLAGS="-Zsanitizer=thread --cfg carron_verif -Awarnings" cargo +nightly build --offline --quiet -Zbuild-std --features tsan --bin races --bin carron-tsan --target x86_64-unknown-linux-gnu --target-dir target-tsan
