#!/opt/venv/bin/python
"""run.py <PROPERTY> [--thorough] [--only=substring]   decide one property
run.py --replay FILE                                  replay a counterexample
"""
import os
import sys

sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from symx import runner  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(runner.replay(sys.argv[2]))
    sys.exit(runner.main(sys.argv[1:]))
