#!/bin/bash
# Checks that the toolchain is there and the harnesses build; the checks build
# what they need themselves.
cd "$(dirname "$0")/harness" || exit 1
export CARGO_NET_OFFLINE=true RUSTFLAGS="-A dangerous_implicit_autorefs -Awarnings"
command -v cbmc >/dev/null && cargo kani --version && cargo +nightly build -q --offline --target-dir ../work/native-harness && cd ../harness-sync && cargo +nightly build -q --offline --target-dir ../work/native-harness-sync && cd ../harness-unwind && cargo +nightly build -q --offline --target-dir ../work/native-harness-unwind && python3-vt -c 'import z3'
