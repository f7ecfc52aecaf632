#!/bin/bash
# Usage: check.sh <property> <quick|thorough> [more arguments of pbt.run]
here="$(cd "$(dirname "$0")" && pwd)"
repo="${PBT_REPO:-/repo}"
prop="$1"; tier="$2"; shift 2
export PYTHONPATH="$here:$here/vendor:$repo"
export NUMBA_DISABLE_JIT="${PBT_NOJIT:-1}"
export NUMBA_CACHE_DIR="${TMPDIR:-/tmp}/pbt_numba_cache"
export PYVISTA_OFF_SCREEN=true MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
if [ "$prop" = P30 ]; then
    # The only check with compiled code; several threads, so that parallel loops are really parallel
    export NUMBA_DISABLE_JIT=0 NUMBA_NUM_THREADS=4
fi
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" && exec "$py" -m pbt.run "$prop" --tier "$tier" "$@"
