#!/bin/bash
# check.sh <property> [--tier quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/usr/local/bin:/usr/bin:/bin
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_rmaps_base_oversubscribe=1 HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent
scratch="$(mktemp -d /tmp/vf.XXXXXX)"
trap 'rm -rf "$scratch"' EXIT
export TMPDIR="$scratch"
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export PYTHONPATH="${VF_REPO:-/repo}:$here"
cache="$here/.cache/dijitso"
mkdir -p "$cache" 2>/dev/null
if [ -w "$cache" ]; then export DIJITSO_CACHE_DIR="$cache"; else export DIJITSO_CACHE_DIR="$scratch/dijitso"; fi
cd "$scratch" || exit 2
/opt/venv/bin/python -W ignore -m vf.main "$@" --scratch "$scratch"
exit $?
