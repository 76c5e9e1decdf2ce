#!/bin/bash
# check.sh <property id>: rebuild from /repo's working tree, then run the check (VERIF_SEED, VERIF_TIER).
bash /verif/build.sh || exit 2
exec /verif/target/release/nmea-harness check "$1"
