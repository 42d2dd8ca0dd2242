# environment shared by setup.sh and check
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_PY="${VERIF_PY:-/opt/venv/bin/python}"
export PYTHONPATH="$PWD:$VERIF_REPO/src"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export PYTHONWARNINGS=ignore
export VERIF_SEED="${VERIF_SEED:-0}"
