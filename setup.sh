#!/bin/bash
# Nothing has to be built: the checks import the code from /repo/src. This only confirms that the environment can run them.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= WANDB_MODE=disabled PYTHONPATH="/repo/src:$here"
exec /opt/venv/bin/python -c "import torch, numpy, ray, gymnasium, evotorch, vmon.run; print('environment is usable')"
