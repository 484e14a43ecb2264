#!/bin/bash
# Nothing is compiled: the checks import /repo as it is.  This only tells early when a tool is missing.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P' || exit 1
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, plotly, django
print("python", sys.version.split()[0], "hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "plotly", plotly.__version__, "django", django.__version__)
P
node --version
