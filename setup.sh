#!/bin/sh
# nothing to build: check that the interpreter, the solver and the engine load
d=$(cd "$(dirname "$0")" && pwd)
set -e
test -x /usr/local/bin/z3-new
cd "$d"
OPENBLAS_NUM_THREADS=1 NUMPY_EXPERIMENTAL_ARRAY_FUNCTION=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, '.')
sys.path.insert(0, '/repo')
from symlrvb import npsym
npsym.install()
import LinearResponseVariationalBayes
print('symbolic engine loads')
P
