#!/bin/bash
# run.sh <PROPERTY> [tier] [extra args]: run one property's monitors against /repo's working tree.
cd "$(dirname "$0")" || exit 2
ID="$1"; shift
TIER="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 QT_QPA_PLATFORM=offscreen
WORK=$(mktemp -d /tmp/pbmon.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/tmp" "$WORK/mpl"
export PBMON_WORK="$WORK" TMPDIR="$WORK/tmp" MPLCONFIGDIR="$WORK/mpl"
export PYTHONPYCACHEPREFIX="$WORK/no-pycache"
unset PYTHONPATH
/opt/venv/bin/python -m pbmon "$ID" --tier "$TIER" "$@"
rc=$?
exit $rc
