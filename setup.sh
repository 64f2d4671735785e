#!/bin/bash
# Nothing to build: verify that the interpreter, Hypothesis and NRWAL load.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, '.')
from harness import core, ref, interp
import NRWAL
assert NRWAL.__file__.startswith(core.REPO), NRWAL.__file__
assert len(interp.Library().equations()) == 1147
assert len(interp.config_files()) == 52
print('ready: hypothesis', core.hypothesis.__version__)
PY
