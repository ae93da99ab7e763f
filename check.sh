#!/bin/bash
# check.sh <property> <quick|thorough>: builds what the check needs from /repo's
# working tree and runs it.  Exit 0: held; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$0")" || exit 2
id=$1 tier=${2:-${VERIF_TIER:-quick}}
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG CARGO_BUILD_TARGET_DIR
mkdir -p evidence
case $id in
C2?) # the program under a controlled operating system, browser and scheduler
	python3 cli/check.py "$id" "$tier"
	code=$?
	[ $code -le 1 ] || exit 2
	exit $code
	;;
esac
log=$(mktemp) || exit 2
trap '/bin/rm -f "$log"' EXIT
if ! (cd mc && cargo build --offline --release) >"$log" 2>&1; then
	cat "$log" >&2
	echo "error: the model checker does not build against /repo" >&2
	exit 2
fi
mc/target/release/mc check "$id" "$tier" "$PWD"
