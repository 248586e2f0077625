#!/bin/sh
# check.sh <property>: builds the simulator against /repo's working tree, with
# the hooks on, and runs the campaign. Exit 0 held, 1 violated, 2 no verdict.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR
CARGO_NET_OFFLINE=true
export CARGO_NET_OFFLINE
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
RUSTFLAGS="--cfg langtag_sim"
target="--target-dir sim/target"
bin=sim/target/release/langtag-sim
if [ "$1" = C12 ]; then
	# A build of its own, in which every edge of the control flow is counted.
	RUSTFLAGS="$RUSTFLAGS -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3"
	RUSTFLAGS="$RUSTFLAGS -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0"
	target="--features meter --target x86_64-unknown-linux-gnu --target-dir sim/target/meter"
	bin=sim/target/meter/x86_64-unknown-linux-gnu/release/langtag-sim
fi
export RUSTFLAGS
log=$(mktemp) || exit 2
if ! cargo build --release --offline --locked --quiet --manifest-path sim/Cargo.toml $target >"$log" 2>&1; then
	cat "$log" >&2
	rm -f "$log"
	echo "no verdict: the simulator does not build against this tree" >&2
	exit 2
fi
if [ "$1" = C11 ]; then
	# The device: the library as shipped, without std.
	if ! RUSTFLAGS= cargo build --release --offline --locked --quiet --manifest-path device/Cargo.toml --target-dir sim/target/device >"$log" 2>&1; then
		cat "$log" >&2
		rm -f "$log"
		echo "no verdict: the device does not build against this tree" >&2
		exit 2
	fi
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec $bin run "$1"
