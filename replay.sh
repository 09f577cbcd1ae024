#!/bin/bash
# replay.sh FILE: run a recorded counterexample again, natively (dev profile).
H=$(sed -n 's/^harness: .* //p' "$1"); V=$(sed -n 's/^values: //p' "$1"); C=$(sed -n 's/^harness: \([^/]*\)\/.*/\1/p' "$1")
D=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTFLAGS="-A dangerous_implicit_autorefs -Awarnings"
cd "$D/$C" && cargo +nightly build -q --offline --target-dir "$D/work/native-$C" && exec "$D/work/native-$C/debug/$C" "$H" "$V"
