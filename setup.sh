#!/bin/bash
# nothing to build: checks load /repo's sources on every run
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, scipy
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy", scipy.__version__)
P
/opt/venv/bin/python vc/selftest.py 4
