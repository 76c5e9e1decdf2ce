#!/bin/bash
# replay.sh <replay file>: rebuild and run one recorded case again.
mkdir -p /verif/target
bash /verif/build.sh || exit 2
exec /verif/target/release/nmea-harness replay "$1"
