#!/bin/bash
# Nothing to build: the generators are Python and run from source. Checks that the tools are present.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
PYTHONPATH=/opt/veriftools/pyvenv/lib/python3.12/site-packages $PY -c 'import z3, sympy; print("z3", z3.get_version_string(), "sympy", sympy.__version__)'
