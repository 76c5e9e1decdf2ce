#!/bin/bash
# Builds the harness against /repo's working tree, offline.
set -e
T=/verif/target
mkdir -p $T
cd /verif/harness
export RUSTC_WRAPPER=/verif/harness/rustc-wrapper.sh CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$T
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# cargo goes by modification times; go by content here, whatever times a checkout gave the files
sum=$(find /repo/Cargo.toml /repo/src /verif/harness -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat $T/tree.sha256 2>/dev/null)" != "$sum" ]; then
    rm -rf $T/tree.sha256 $T/release/.fingerprint/nmea-parser-* $T/release/.fingerprint/nmea-harness-*
fi
cargo build --release --offline --locked -q 2>$T/build.log || { cat $T/build.log >&2; exit 2; }
echo "$sum" > $T/tree.sha256
