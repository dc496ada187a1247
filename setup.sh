#!/bin/bash
# Builds the harness once, so that the toolchain and the crate cache are known to work.
cd "$(dirname "$0")/harness" || exit 2
CARGO_TARGET_DIR="$PWD/../target" cargo build --offline --locked
