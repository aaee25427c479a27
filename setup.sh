#!/bin/bash
# Builds the Fortran extensions into the (git-ignored) cache; the checks rebuild
# them by themselves whenever the cache has no build of the current source.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo FC=gfortran CC=gcc
python -c "import sys; sys.path.insert(0,'lib'); import fort; fort.build('geotecha/speccon/ext_integrals.f95'); fort.build('geotecha/constitutive_models/epus_ext.f95')"
