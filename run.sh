#!/bin/bash
# run.sh PROPERTY [TIER]      run the check of one property (tier: quick, thorough)
# run.sh --replay FILE        run one recorded case again
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH CMAKE_GENERATOR BROWSER DISPLAY
cd "$here" || exit 2
exec /opt/venv/bin/python -m vf.main "$@"
