#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]      run one check
#        run.sh --replay <file>                      re-run one saved failing case
#        run.sh --setup                              unpack hypothesis next to us
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export JAX_PLATFORMS=cpu XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_CPP_MIN_LOG_LEVEL=3 TQDM_DISABLE=1
export PYTHONPATH="$here${LBVERIF_EXTRA_PATH:+:$LBVERIF_EXTRA_PATH}"
exec /opt/venv/bin/python -m lbverif "$@"
