#!/bin/bash
# run.sh check ID | replay FILE | selftest ID ... : entry point of the simulator; everything runs from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" PYTHONHASHSEED=0
unset PYTHONPYCACHEPREFIX PYTHONWARNINGS
exec /opt/venv/bin/python -m dst "$@"
