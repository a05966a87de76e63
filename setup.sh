#!/bin/bash
# Builds the replay harnesses from /repo's tree so that the checks only rebuild what changed.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys; sys.path.insert(0, "checks"); sys.dont_write_bytecode = True
import vt
vt.build("front")
vt.build("scaffold")
vt.build("back")
PY
