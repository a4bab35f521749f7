#!/bin/bash
# builds the replay crate once; every check rebuilds what changed
cd "$(dirname "$0")" || exit 1
mkdir -p .build
(cd replay && RUSTFLAGS="--cfg fxd_verif" CARGO_TARGET_DIR=../.build/replay cargo build --offline --release --quiet)
verus --version >/dev/null
