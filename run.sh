#!/bin/bash
# ./run.sh C01 [--replay FILE]   run one check against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/bin:/bin HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 \
  PYTHONHASHSEED=0 MPLBACKEND=Agg PLOTLY_RENDERER=json BROWSER=/bin/true QT_QPA_PLATFORM=offscreen \
  PYVISTA_OFF_SCREEN=true RAY_USAGE_STATS_ENABLED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
  PYTHONPATH="$here:${VERSE_REPO:-/repo}" PYTHONWARNINGS=ignore
cd "$here" || exit 2
exec /opt/venv/bin/python -m mc.main "$@"
