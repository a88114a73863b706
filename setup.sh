#!/bin/sh
# nothing to build ahead of time: every check rebuilds from /repo. Only verify that the tools are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
clang++ --version >/dev/null
g++ --version >/dev/null
python3-vt -c "import z3" 2>/dev/null
cvc5 --version >/dev/null
python3-vt -m compileall -q dv check.py props.py >/dev/null 2>&1 || true
