#!/bin/bash
# Nothing to compile: verify that the interpreter and the packages import.
cd "$(dirname "$0")" || exit 1
chmod +x check 2>/dev/null
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo')
import raster_tools, dask, numba, xarray; print('ok')"
