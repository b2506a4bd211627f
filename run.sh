#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--only SEARCH]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= \
  HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  OPENBLAS_NUM_THREADS=1 TORCHDYNAMO_DISABLE=1 TQDM_DISABLE=1
cd "$here" && exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '$here'); from pv.core import main; sys.exit(main(sys.argv[1:]))" "$@"
