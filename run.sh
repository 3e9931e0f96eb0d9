#!/bin/bash
# Usage: run.sh <property> [quick|thorough] [--only <task substring>] [-v]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TQDM_DISABLE=1
export XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_CPP_MIN_LOG_LEVEL=3
# The code under test is always /repo's current working tree.
export PYTHONPATH="/repo:$PWD"
exec /opt/venv/bin/python -m mc.run "$@"
