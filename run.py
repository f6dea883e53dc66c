#!/opt/venv/bin/python
"""Entry point: run.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE].

Runs the exhaustive exploration registered for one property against the code in /repo
(the current working tree), writes evidence/<id>.json and exits 0 (held on everything
explored) or 1 (a line VIOLATION property=<id> replay=<path>)."""
import os, sys

# A fixed environment: own the string-hash order, threading and matplotlib before anything is imported.
WANT = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/tmp/verif-mpl"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in WANT.items()) or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ); env.update(WANT); env["VERIF_REEXEC"] = "1"; env.pop("PYTHONPATH", None)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from vlib.runner import main
sys.exit(main(HERE))
