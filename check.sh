#!/bin/bash
# usage: check.sh ID   -- builds the simulator from /repo's working tree and decides one property.
# VERIF_SEED: seed (default 1); VERIF_TIER: quick | thorough (default quick)
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/build" "$HERE/evidence" "$HERE/replays"
EXE=$("$HERE/sim/build.sh" "$HERE/build") || { echo "build failed" >&2; exit 3; }
exec "$EXE" check "$1" "$HERE" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}"
