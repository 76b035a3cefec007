#!/bin/sh
# Nothing is compiled: check that the verifier's tools and the imports are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
cvc5 --version | head -1
/opt/venv/bin/python -B -c 'import sys; print(sys.version)'
