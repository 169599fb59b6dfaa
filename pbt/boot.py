"""Process bootstrap: fixed environment, Hypothesis from the offline wheelhouse,
smote_variants imported from /repo's working tree."""
import os
import sys
import glob
import zipfile
import tempfile
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"

ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "-1",
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
    "TF_ENABLE_ONEDNN_OPTS": "0",
}


def ensure_deps():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        pats = ["hypothesis-*cp312-cp312*.whl", "sortedcontainers-*.whl", "attrs-*.whl"]
        for pat in pats:
            found = sorted(glob.glob(os.path.join(WHEELS, pat)))
            if not found:
                raise RuntimeError("wheel not found: " + pat)
            with zipfile.ZipFile(found[-1]) as zf:
                zf.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


def reexec_if_needed():
    """run under the repository's interpreter with the fixed environment"""
    want = dict(ENV)
    if (os.path.realpath(sys.executable) != os.path.realpath(PY)
            or sys.prefix != "/opt/venv"
            or any(os.environ.get(k) != v for k, v in want.items())):
        if os.environ.get("VP_REEXEC") == "1":
            raise RuntimeError("could not establish the check environment")
        env = dict(os.environ, **want)
        env["VP_REEXEC"] = "1"
        os.execve(PY, [PY] + sys.argv, env)


def init():
    import warnings
    import logging
    warnings.simplefilter("ignore")
    ensure_deps()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import smote_variants
    if not os.path.realpath(smote_variants.__file__).startswith(REPO + "/"):
        raise RuntimeError("smote_variants is not imported from " + REPO)
    logging.getLogger("smote_variants").setLevel(60)
    logging.disable(logging.CRITICAL)
    return smote_variants
