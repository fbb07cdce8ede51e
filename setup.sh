#!/bin/bash
# Nothing is compiled: tmdsimpy and this framework are pure Python. Only check that both import.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python -B -W ignore -c "
import sys; sys.path.insert(0,'/repo'); sys.path.insert(0,'mc')
import numpy, scipy, tmdsimpy, core
print('setup ok: numpy', numpy.__version__, 'scipy', scipy.__version__)"
