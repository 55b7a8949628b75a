#!/bin/bash
# usage: run_check.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= \
  TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONHASHSEED=0 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" \
  TF_ENABLE_ONEDNN_OPTS=0 PYTHONWARNINGS=ignore
mkdir -p evidence/logs
log="evidence/logs/$1.err"
/opt/venv/bin/python -m mc.core "$@" 2>"$log"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then tail -20 "$log"; fi
if [ -n "$VERIF_SHOW_ERR" ]; then tail -60 "$log" >&2; fi
exit $rc
