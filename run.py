#!/usr/bin/env python3
"""run.py PXX [--tier quick|thorough] [--seed N] [--replay FILE]: run one check."""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8:backslashreplace",
       "PYTHONPYCACHEPREFIX": "/nonexistent/pycache", "PYTHONUTF8": "1"}

if any(os.environ.get(k) != v for k, v in ENV.items()) or (
        os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")):
    py = PY if os.path.exists(PY) else sys.executable
    if os.environ.get("VERIF_REEXEC") != "1":
        os.execve(py, [py, "-u", os.path.abspath(__file__)] + sys.argv[1:], {**os.environ, **ENV, "VERIF_REEXEC": "1"})

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
sys.exit(vp.main(sys.argv[1:]))
