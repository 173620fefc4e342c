#!/bin/bash
# run.sh <PROPERTY> [tier]   -- the only entry point used by MANIFEST.json
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/bin:/usr/bin:/bin HOME="${HOME:-/root}"
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_USE_LEGACY_KERAS=1 TF2ONNX_TEST_BACKEND=onnxruntime TF2ONNX_TEST_OPSET=18
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES="" TF_ENABLE_ONEDNN_OPTS=0
export TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export ABSL_MIN_LOG_LEVEL=3 GRPC_VERBOSITY=ERROR
unset TF2ONNX_CATCH_ERRORS TF2ONNX_DEBUG_MODE
REPO="${VERIF_REPO:-/repo}"
export VERIF_REPO="$REPO" PYTHONPATH="$REPO:$PWD"
SCRATCH="$(mktemp -d /tmp/mc_run_XXXXXXXX)" || exit 2
export TMPDIR="$SCRATCH"
trap 'rm -rf -- "$SCRATCH"' EXIT
/opt/venv/bin/python -m mc.core "$@"

