#!/bin/sh
# nothing to build ahead of time: check that the tools are there
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
/opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
import symx, z3, numpy, scipy, sklearn, pybind11
print('z3', z3.get_version_string())"
