#!/bin/sh
# C30: builds the monitors with AddressSanitizer (and for Miri) and runs them.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 4
build=${MON_BUILD:-$here/build}
log=$build/asan.log
mkdir -p "$build"
export MON_ROOT="$here"
export CARGO_NET_OFFLINE=true
export MON_CLI="$build/cli/debug/seiren"
target=x86_64-unknown-linux-gnu
if ! RUSTFLAGS="-Zsanitizer=address --cfg mon_asan" cargo +nightly build --offline --quiet \
    --manifest-path harness/Cargo.toml --target $target --target-dir "$build/asan" >"$log" 2>&1; then
    tail -n 60 "$log"
    echo "asan.sh: build failed"
    exit 4
fi
# One interpreter run builds it; without a usable interpreter the rest goes on.
if sh ./miri.sh 1 0 >"$log" 2>&1; then
    export MON_MIRI="$here/miri.sh"
else
    echo "asan.sh: no interpreter:"
    tail -n 5 "$log"
fi
# The same with ThreadSanitizer, which needs a standard library built with it.
if RUSTFLAGS="-Zsanitizer=thread --cfg mon_tsan" cargo +nightly build -Zbuild-std --offline --quiet \
    --manifest-path harness/Cargo.toml --target $target --target-dir "$build/tsan" >"$log" 2>&1 &&
    "$build/tsan/$target/debug/mon" list >"$log" 2>&1; then
    export MON_TSAN="$build/tsan/$target/debug/mon"
else
    echo "asan.sh: no ThreadSanitizer:"
    tail -n 5 "$log"
fi
# And with MemorySanitizer.
if RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg mon_msan" cargo +nightly build -Zbuild-std --offline --quiet \
    --manifest-path harness/Cargo.toml --target $target --target-dir "$build/msan" >"$log" 2>&1 &&
    "$build/msan/$target/debug/mon" list >"$log" 2>&1; then
    export MON_MSAN="$build/msan/$target/debug/mon"
else
    echo "asan.sh: no MemorySanitizer:"
    tail -n 5 "$log"
fi
[ "$1" = build ] && exit 0
# Memory is counted by the monitors themselves, which sees what is still
# reachable too; LeakSanitizer needs tracing rights a check may lack.
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=0:detect_stack_use_after_return=1"
exec "$build/asan/$target/debug/mon" "$@"
