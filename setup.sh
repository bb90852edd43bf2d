#!/bin/bash
# builds the extractor and the replay harness dependencies (the checks build them too when missing)
cd "$(dirname "$0")" || exit 1
mkdir -p build/pub evidence
CARGO_TARGET_DIR=$PWD/build/vx cargo build --offline -q --manifest-path vx/Cargo.toml || exit 1
cp harness/pub.Cargo.toml build/pub/Cargo.toml
build/vx/debug/pubify /repo/src build/pub/src || exit 1
(cd harness && CARGO_TARGET_DIR=../build/target cargo build --offline -q --bins) || exit 1
mkdir -p build/pubffi
cp harness_ffi/pub.Cargo.toml build/pubffi/Cargo.toml
build/vx/debug/pubify /repo/ffi/src build/pubffi/src || exit 1
(cd harness_ffi && CARGO_TARGET_DIR=../build/target cargo build --offline -q --bins) || exit 1
