#!/bin/bash
# Nothing to build: the checks import kalepy from /repo's working tree.  Verify that this works here.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replays
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -c "
import sys; sys.path.insert(0, '.')
from sim import boot
print('kalepy', boot.kale.__version__, 'from', boot.kale.__file__)"
