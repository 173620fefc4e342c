#!/bin/bash
# nothing to build: the checks import /repo and run it with the interpreter of the sandbox
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import onnx, onnxruntime, numpy"
