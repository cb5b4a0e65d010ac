#!/bin/bash
# build.sh [ID|all]: builds the harness with /repo's crate, and for the checks
# that run them (C15, C16, C17) the command and the WebAssembly library.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:-all}"
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${WSVERIF_TOOLCHAIN:-1.99.1-x86_64-unknown-linux-gnu}"
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS || true
# Never trust modification times: always rebuild /repo's crate.
fresh() { rm -rf "$1"/.fingerprint/whitespace-*; }

fresh "$here/harness/target/debug"
# /repo's crate is instrumented for coverage, which guides the search.
(cd "$here/harness" && RUSTC_WRAPPER="$here/tools/rustc-sancov.sh" cargo build --quiet --offline)
case "$id" in
C15 | C16 | all)
	fresh "$here/build/cli/debug"
	cargo build --quiet --offline --manifest-path /repo/Cargo.toml --bin whitespace \
		--target-dir "$here/build/cli"
	;;
esac
case "$id" in
C17 | all)
	fresh "$here/build/wasm/wasm32-unknown-unknown/debug"
	cargo build --quiet --offline --manifest-path /repo/Cargo.toml --lib \
		--target wasm32-unknown-unknown --target-dir "$here/build/wasm"
	;;
esac
