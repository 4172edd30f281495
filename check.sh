#!/bin/bash
# Rebuilds the simulator against /repo's working tree and decides one property.
# usage: check.sh ID quick|thorough
cd "$(dirname "$0")" || exit 2
feat=()
if [ "$1" = C20 ]; then
  feat=(--features simcheck/opendal)
  export SIM_TARGET=/verif/target/opendal
fi
if ! bash sim/build.sh "${feat[@]}"; then
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 2
fi
exec "${SIM_TARGET:-/verif/target}/release/simcheck" check "$1" "${2:-quick}"
