#!/bin/bash
# nothing to build: the simulator is pure Python and imports acoular from /repo's working tree
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 10); import numpy, traits, h5py, tables, numba'
