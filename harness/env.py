"""Import set-up shared by the runner and the workers.

The code under test is imported from REPO_PYTHON (default /repo/python, i.e. the
current working tree); it is interpreted Python, so there is nothing else to
rebuild.  Hypothesis is not installed in the project's interpreter: the pure
python package of the tooling venv is appended *after* the project's own
site-packages, so numpy/scipy/sympy are always the ones the project is tested
with.
"""
import os
import sys

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PYTHON = os.environ.get("VERIF_REPO_PYTHON", "/repo/python")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def worker_env():
    e = dict(os.environ)
    e.update({
        "PYTHONHASHSEED": e.get("VERIF_HASHSEED", "0"),
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "MPLCONFIGDIR": e.get("MPLCONFIGDIR", "/tmp/verif-mpl"),
        "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
        "PYTHONWARNINGS": "ignore",
    })
    e.pop("PYTHONPATH", None)
    return e


def setup_path():
    if REPO_PYTHON not in sys.path:
        sys.path.insert(0, REPO_PYTHON)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if HYP not in sys.path:
        sys.path.append(HYP)
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings("ignore")
