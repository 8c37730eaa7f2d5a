#!/usr/bin/env python3
"""Entry point of the checks:  check.py C01 [--tier quick|thorough] [--replay FILE]

Decides one property of /verif/properties.jsonl against the working tree of
/repo by generated-input search.  Exit 0: held on everything explored.
Exit 1 and a VIOLATION line: broken.  Exit 2: error of the check itself.
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "VF_BOOT": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent-hypothesis",
}

if os.environ.get("VF_BOOT") != "1":
    env = dict(os.environ)
    env.update(ENV)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONWARNINGS"):
        env.pop(k, None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
