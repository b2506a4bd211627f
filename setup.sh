#!/bin/bash
# Nothing to compile; checks that the tools the framework needs are present.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from pv.core import load_hypothesis
print('hypothesis', load_hypothesis().__version__)
import torch, scipy; print('torch', torch.__version__)"
