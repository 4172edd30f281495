#!/bin/bash
# Builds the simulator once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
bash sim/build.sh || exit 1
SIM_TARGET=/verif/target/opendal exec bash sim/build.sh --features simcheck/opendal
