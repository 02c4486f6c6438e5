#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator with /repo's working tree and runs the check
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
if ! cargo build --offline >build.log 2>&1; then
    tail -40 build.log
    echo "check.sh: the simulator does not build"
    exit 2
fi
export KNSIM_ROOT="$here"
exec ./target/debug/knsim check "$1" "${2:-${VERIF_TIER:-quick}}"
