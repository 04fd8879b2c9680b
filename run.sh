#!/bin/bash
# usage: run.sh build | run.sh check <property> | run.sh replay <file>
# Builds the harness against /repo's current tree and runs it.
cd /verif || exit 2
export FAV_ROOT="$PWD"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$PWD/harness/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p harness/target evidence replays
build() {
    (
        flock 9
        # never trust time stamps: rebuild the library from its present sources
        rm -rf /verif/harness/target/release/.fingerprint/firrtl-ast-* /verif/harness/target/release/.fingerprint/fav-harness-*
        cargo build --offline --release --locked --manifest-path harness/Cargo.toml >harness/target/build.log 2>&1
    ) 9>harness/target/.lock
}
if ! build; then
    # once more, in case the build directory is stale or half-written
    rm -rf /verif/harness/target/release
    if ! build; then
        tail -60 harness/target/build.log
        echo "the harness does not build"
        exit 2
    fi
fi
case "$1" in
build) exit 0 ;;
*) exec harness/target/release/fav-harness "$@" ;;
esac
