#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the client from /repo's working tree and searches.
# exit 0 held, 1 violation (with a VIOLATION line), 2 no answer
# check.sh setup: builds and tests the simulator itself
cd /verif/sim || exit 2
export CARGO_TARGET_DIR=/verif/sim/target CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTUP_TOOLCHAIN
build() {
    # do not trust file times: what came from /repo is always built again
    cargo clean --offline --release -p turtls -p crylib -p tsim >/dev/null 2>&1
    local log=/verif/sim/target/build.log
    mkdir -p /verif/sim/target
    if ! cargo build --offline --release >"$log" 2>&1; then
        grep -A12 -E '^error' "$log" | head -60 >&2
        echo "the simulator does not build against /repo" >&2
        return 1
    fi
}
build || exit 2
if [ "$1" = setup ]; then
    exec /verif/sim/target/release/tsim selftest
fi
exec /verif/sim/target/release/tsim check "$1" "${2:-${VERIF_TIER:-quick}}"
