#!/bin/sh
# Builds the monitors and the program from /repo's working tree and runs them.
#   sh run.sh build              build everything
#   sh run.sh check ID           run a property's check (VERIF_SEED, VERIF_TIER)
#   sh run.sh one ID TIER SEED CASE   replay a case
#   sh run.sh list
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
export MON_ROOT="$here"
export CARGO_NET_OFFLINE=true
build=${MON_BUILD:-$here/build}
export MON_CLI="$build/cli/debug/seiren"
export MON_SHIM="$build/shim.so"
log=$build/build.log
mkdir -p "$build"

compile() {
    if ! "$@" >"$log" 2>&1; then
        tail -n 60 "$log"
        echo "run.sh: build failed: $*"
        exit 4
    fi
}
build_mon() {
    compile cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir "$build/mon"
}
build_cli() {
    compile cc -O1 -shared -fPIC -o "$build/shim.so" harness/shim/shim.c
    compile cargo build --offline --quiet --manifest-path /repo/Cargo.toml --bin seiren --target-dir "$build/cli"
}

case "$1" in
build)
    build_mon
    build_cli
    sh ./asan.sh build
    ;;
check | one)
    case "$2" in
    C04 | C22 | C24 | C25)
        build_mon
        build_cli
        exec "$build/mon/debug/mon" "$@"
        ;;
    C30)
        exec sh ./asan.sh "$@"
        ;;
    *)
        build_mon
        exec "$build/mon/debug/mon" "$@"
        ;;
    esac
    ;;
*)
    build_mon
    exec "$build/mon/debug/mon" "$@"
    ;;
esac
