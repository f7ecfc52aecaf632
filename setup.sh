#!/bin/bash
# Nothing to build: the checks are Python and import the library from /repo. Verifies the parts are there.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$here:$here/vendor:${PBT_REPO:-/repo}" NUMBA_DISABLE_JIT=1 PYVISTA_OFF_SCREEN=true PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p "$here/evidence"
exec "$py" -c "import hypothesis, building3d, pbt.run, pbt.lib; print('ready, hypothesis', hypothesis.__version__)"
