#!/bin/bash
# Nothing to build: check that the interpreter and the solver are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, pandas, scipy, z3
print('numpy', numpy.__version__, 'pandas', pandas.__version__, 'z3', z3.get_version_string())
P
