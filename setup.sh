#!/bin/bash
# builds the simulator once; the checks rebuild whatever changed
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/build" "$HERE/evidence" "$HERE/replays"
"$HERE/sim/build.sh" "$HERE/build"
