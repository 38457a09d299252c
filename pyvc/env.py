"""Interpreter set-up: /opt/venv's Python (the one the project runs on) plus the solver bindings."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
OUT = os.environ.get("PYVC_OUT", VERIF)
SOLVERS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup(instrumented):
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SOLVERS not in sys.path:
        sys.path.append(SOLVERS)
    if instrumented:
        from . import core, instrument, models  # noqa

        models.install()

        instrument.install(("metrics_layer", "pypika", "contracts"))


def load_contracts(prop=None):
    import glob
    import importlib

    from . import api

    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.py"))):
        m = os.path.basename(f)[:-3]
        if m == "__init__" or (prop and m.startswith("c") and m[1:2].isdigit() and m.split("_")[0].upper() != prop):
            continue
        if prop and not (m.startswith("c") and m[1:2].isdigit()):
            continue
        importlib.import_module("contracts." + m)
    return {k: c for k, c in api.CONTRACTS.items() if prop is None or c.prop == prop}
