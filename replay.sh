#!/bin/bash
# usage: replay.sh FILE [v]  -- replays a recorded violation against /repo's working tree; v prints the trace
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/build"
EXE=$("$HERE/sim/build.sh" "$HERE/build") || exit 3
exec "$EXE" replay "$@"
