#!/bin/bash
# Usage: check.sh <PROPERTY-ID> [quick|thorough]
# Runs one model-checking harness against /repo's current working tree.  Everything the run
# generates (byte code, numba cache, matplotlib/astropy config, HDF5 scratch files) goes to a
# fresh scratch directory that is removed at the end.
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="${1:?usage: check.sh ID [tier]}"
TIER="${2:-quick}"
SCRATCH="$(mktemp -d /tmp/vmc.XXXXXXXX)" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/tmp" "$SCRATCH/cache" "$SCRATCH/config" "$SCRATCH/numba" "$SCRATCH/cwd"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}" MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONPATH="${VMC_REPO:-/repo}:$HERE" PYTHONWARNINGS=ignore PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 JAX_PLATFORMS=cpu
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" NUMBA_CACHE_DIR="$SCRATCH/numba" PYTHONDONTWRITEBYTECODE=1
export XDG_CONFIG_HOME="$SCRATCH/config" XDG_CACHE_HOME="$SCRATCH/cache" TMPDIR="$SCRATCH/tmp"
export VMC_SCRATCH="$SCRATCH" VMC_HOME="$HERE"
cd "$SCRATCH/cwd" || exit 2
shift; shift
/opt/venv/bin/python -m vmc.run "$ID" "$TIER" "$@"
exit $?
