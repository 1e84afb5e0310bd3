"""Interpreter set-up shared by the driver and the workers.

/opt/venv holds the dependencies of magpie (numpy, scipy, healpy, matplotlib);
Hypothesis comes from the tooling venv, appended so that it shadows nothing.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


def add_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(TOOL_SITE, "hypothesis")):
        sys.path.append(TOOL_SITE)
    else:
        import glob
        for pat in ("hypothesis-*cp312*.whl", "hypothesis-*py3*.whl",
                    "sortedcontainers-*.whl"):
            for w in sorted(glob.glob(os.path.join(WHEELS, pat)))[:1]:
                # the wheel may hold a compiled module: unpack it
                import tempfile
                import zipfile
                d = tempfile.mkdtemp(prefix="verif-hyp-")
                zipfile.ZipFile(w).extractall(d)
                sys.path.append(d)
                import atexit
                import shutil
                atexit.register(shutil.rmtree, d, True)
    import hypothesis  # noqa: F401


def worker_environ():
    e = dict(os.environ)
    e.update({
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": e.get("VERIF_SCRATCH", "/tmp"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "PYTHONWARNINGS": "ignore",
    })
    e.pop("PYTHONPATH", None)
    return e
