#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]
# Runs one monitor check against /repo's working tree, in a private scratch directory which is removed afterwards.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
export VERIF_DIR=$HERE
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$VERIF_REPO:$HERE PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TF_ENABLE_ONEDNN_OPTS=0
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 PIP_NO_INDEX=1 GIT_TERMINAL_PROMPT=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH=$(mktemp -d /var/tmp/verif.XXXXXXXX) || exit 3
export VERIF_SCRATCH=$SCRATCH TMPDIR=$SCRATCH/tmp HOME=$SCRATCH/home RETURNN_CACHE_DIR=$SCRATCH/cache USER=${USER:-root}
mkdir -p "$TMPDIR" "$HOME" "$RETURNN_CACHE_DIR"
# everything the check starts lives in its own session, so leftovers can be ended at the end
setsid -w /opt/venv/bin/python -m vlib.main "$@"
RC=$?
case "$SCRATCH" in /var/tmp/verif.????????) rm -rf -- "$SCRATCH";; esac
exit $RC
