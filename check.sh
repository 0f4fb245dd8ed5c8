#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--replay <file>] [--only <part of a space name>]
# Builds the harness and the library from /repo's working tree and decides one property.
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cd "$(dirname "$0")" || exit 2
export MC_ROOT=$PWD
export CARGO_TARGET_DIR=$PWD/.target
mkdir -p evidence .target
log=.target/build-$$.log
if ! (cd mc && flock "$CARGO_TARGET_DIR/build.lock" cargo build --release --offline --quiet) >"$log" 2>&1; then
    echo "the harness does not build:"
    tail -n 40 "$log"
    exit 2
fi
command rm -f "$PWD/$log"
if [ "$1" = --build ]; then exit 0; fi
id=$1
tier=${2:-quick}
# a runaway allocation ends this process, not the sandbox
ulimit -v 20000000
"$CARGO_TARGET_DIR/release/mc" "$id" "$tier" "${@:3}"
rc=$?
case $rc in
0 | 1 | 2) exit $rc ;;
134 | 139)
    # stack overflow or abort inside the code under test
    echo "the code under test ended the process (exit status $rc)" | tee "evidence/replay-$id.txt"
    echo "VIOLATION property=$id replay=evidence/replay-$id.txt"
    exit 1
    ;;
esac
exit $rc
