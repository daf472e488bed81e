#!/bin/bash
# nothing is prebuilt: every check compiles /repo's current sources itself.  Only verify that the tools are present.
set -e
cd "$(dirname "$0")"
clang-18 --version >/dev/null; opt-18 --version >/dev/null
python3-vt -c "import z3, mpmath, sympy"
python3-vt -c "import sys; sys.path.insert(0, '.'); from vf import build, sym, contract, prop"
echo ok
