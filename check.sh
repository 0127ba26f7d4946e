#!/bin/bash
# check.sh PROPERTY [--quick|--thorough] [--unit SUBSTR] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
export ATEN_CPU_CAPABILITY=default MKL_CBWR=COMPATIBLE ONEDNN_MAX_CPU_ISA=SSE41
export LANG=C.UTF-8 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
