#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE]
# Runs the monitors of one property against the code in /repo/src.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH="/opt/venv/bin:$PATH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export RAY_ADDRESS=local RAY_USAGE_STATS_ENABLED=0 RAY_DEDUP_LOGS=0
export WANDB_MODE=disabled MLFLOW_DISABLE_TELEMETRY=true MLFLOW_DISABLE_AGENT_HINT=1 MLFLOW_ALLOW_FILE_STORE=true
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/src:$here"
unset PYTHONPYCACHEPREFIX
scratch="$(mktemp -d /tmp/vm.XXXXXX)" || exit 3
export VERIF_SCRATCH="$scratch" TMPDIR="$scratch"
cd "$scratch" || exit 3
/opt/venv/bin/python -m vmon.run "$@"
rc=$?
cd /
case "$scratch" in
  /tmp/vm.??????)
    # end ray processes that were started under this scratch directory and are still around
    pkill -9 -f "$scratch" >/dev/null 2>&1
    rm -rf -- "$scratch" ;;
esac
exit $rc
