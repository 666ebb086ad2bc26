#!/bin/bash
# replay.sh FILE [--trace]: rebuilds the simulator against /repo and replays a recorded violation (exit 1: it happens).
HERE=$(cd "$(dirname "$0")/.." && pwd); export OUT=$(mktemp -d /tmp/vsim-XXXXXX)
"$HERE/tools/build.sh" all && "$OUT/sim" replay "$@"; rc=$?
find "$OUT" -delete; exit $rc
