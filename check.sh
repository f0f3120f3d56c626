#!/bin/bash
# usage: check.sh <PROPERTY-ID>          decide one property on /repo's working tree
#        check.sh --replay <file>        re-execute one recorded counterexample
# Everything is read from /repo's current working tree; nothing is built outside a
# private scratch directory that is removed at the end.
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$HERE
export REPO_ROOT=${REPO_ROOT:-/repo}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export PYTHONPATH=$HERE:$REPO_ROOT/src PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/mc-XXXXXX") || exit 2
export TMPDIR=$SCRATCH MC_SCRATCH=$SCRATCH
trap 'rm -rf "$SCRATCH"' EXIT
trap 'exit 143' TERM INT
cd "$SCRATCH" || exit 2
if [ "$1" = "--replay" ]; then
  /opt/venv/bin/python -W ignore -m mc.replay "$2"
else
  /opt/venv/bin/python -W ignore -m mc.run "$@"
fi
