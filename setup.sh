#!/bin/bash
# nothing to build: the checks import the code from /repo; this verifies that the interpreter and libraries are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from mc import env
import numpy, dask, zarr, osgeo, h5py
print('bathygrid from', env.REPO, 'numpy', numpy.__version__, 'dask', dask.__version__, 'zarr', zarr.__version__)
"
