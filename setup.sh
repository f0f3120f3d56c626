#!/bin/bash
# Nothing has to be built: the checks are Python and read /repo's working tree. Verify the tools.
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/evidence" "$HERE/replays"
cd /tmp && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE:/repo/src" /opt/venv/bin/python -W ignore -c "import numpy, scipy, sympy, networkx, mc.core, mc.asm" || exit 1
echo setup ok
