#!/usr/bin/env python3
"""Runner of the bounded exhaustive checks.

usage: python3 mc/run.py Cxx [--tier quick|thorough] [--task LABEL] [--jobs N]

Exit 0: the property held on everything explored.
Exit 1: violated; a line `VIOLATION property=<id> replay=<path>` is printed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if os.environ.get("MC_CHILD") != "1" and os.path.exists(PY):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "TMPDIR", "VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "USER")}
    env.update(MC_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", TZ="UTC",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONNOUSERSITE="1")
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
