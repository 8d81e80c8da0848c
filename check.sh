#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Rebuilds the extension from /repo's working tree, then explores the property's bounded space.
ID=${1:?property id}; shift
TIER=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) TIER=$1; shift;; esac
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
bash "$HERE/build.sh" || { echo "ERROR: /repo does not build"; exit 2; }
. /opt/vp/env.sh
export PYTHONPATH=$HERE:/repo/python:/repo/target/pydist
cd "$HERE" || exit 2
exec "$PYO3_PYTHON" -m mc.run "$ID" --tier "$TIER" "$@"
