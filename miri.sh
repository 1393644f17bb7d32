#!/bin/sh
# Runs the small workload in the Miri interpreter: miri.sh SEED COUNT
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export MIRIFLAGS="-Zmiri-disable-isolation"
exec cargo +nightly miri run --offline --quiet --manifest-path "$here/harness/Cargo.toml" \
    --target-dir "${MON_BUILD:-$here/build}/miri" -- small "$@"
