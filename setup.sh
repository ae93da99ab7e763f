#!/bin/bash
# Builds the framework; the checks build again what is out of date.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG
mkdir -p evidence
(cd mc && cargo build --offline --release) || exit 1
python3 -B - <<'END' || exit 1
import sys
sys.path.insert(0, "cli")
import lib
lib.build_smd()
lib.build_probe()
END
