"""Common ground of the checks that drive the oversampling techniques."""
import os
import tempfile
import traceback
import warnings
import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from . import gen, params
from .core import Skip, Violation

ENTRY = ["sample", "sample", "fit_resample", "sample_with_timing"]


def scratch(prefix):
    """directory in memory, if there is such a file system (files are fsync-ed
    by the code under test)"""
    shm = "/dev/shm"
    return tempfile.mkdtemp(prefix=prefix, dir=shm if os.access(
        shm, os.W_OK | os.X_OK) else None)


class Raised(Exception):
    def __init__(self, exc):
        self.exc = exc
        tb = traceback.extract_tb(exc.__traceback__)
        fr = [f for f in tb if "/smote_variants/" in f.filename]
        self.site = (os.path.basename(fr[-1].filename) + ":" + fr[-1].name
                     if fr else "?")
        Exception.__init__(self, "%s at %s: %s" % (
            type(exc).__name__, self.site, str(exc)[:200]))
        self.sig = "%s@%s" % (type(exc).__name__, self.site)


def guarded(fn, *a, **k):
    """call the code under test; its exceptions become Raised"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except Exception as e:      # noqa
        raise Raised(e) from None


@st.composite
def over_case(draw, name, ds=None, pk=None, entry=True):
    ds = dict(ds or {})
    if name == "DEAGO":
        # it trains a network for max(e, 5000 / n_minority) epochs
        ds.update(min_n_min=50, max_n_min=60, max_gap=12)
    spec = draw(gen.dataset(**ds))
    p = draw(params.strategy(name, **(pk or {})))
    keys = [k for k in params.EXT if k in params.raw_grid(name)]
    if keys:
        # neighbour counts right at the sizes of the classes and of the dataset
        edge = draw(st.sampled_from([None, None, "min", "maj", "all"]))
        if edge and (pk or {}).get("ext", True):
            n0, n1 = spec["n_min"], spec["n_min"] + spec["gap"]
            v = {"min": n0, "maj": n1, "all": n0 + n1}[edge] + draw(
                st.integers(-2, 1))
            k = draw(st.sampled_from(keys))
            if params.valid(name, {**p, k: v}):
                p[k] = v
    return {
        "cls": name,
        "ds": spec,
        "params": p,
        "rs": draw(st.integers(0, 1000)),
        "entry": draw(st.sampled_from(ENTRY)) if entry else "sample",
    }


def run(case, X=None, y=None, obj=None):
    """-> dict with the run's observables; Raised on exception"""
    name = case["cls"]
    mnl = mjl = None
    if X is None:
        X, y, mnl, mjl = gen.materialise(case["ds"])
    if obj is None:
        obj = guarded(params.build, name, case["params"], case["rs"])
    out = guarded(getattr(obj, case.get("entry", "sample")), X, y)
    return dict(X=X, y=y, mnl=mnl, mjl=mjl, obj=obj, out=out)


def run_or_skip(case, **k):
    try:
        return run(case, **k)
    except Raised as e:
        raise Skip("raised " + e.sig)


def unpack(case, r):
    out = r["out"]
    if not (isinstance(out, tuple) and len(out) == 2):
        raise Violation("%s: result is not a pair" % case["cls"])
    Xs, ys = out
    if not (isinstance(Xs, np.ndarray) and isinstance(ys, np.ndarray)):
        raise Violation("%s: result is not a pair of arrays" % case["cls"])
    if Xs.ndim != 2 or ys.ndim != 1 or len(Xs) != len(ys):
        raise Violation("%s: inconsistent result shapes %s %s" % (
            case["cls"], Xs.shape, ys.shape))
    return Xs, ys


def tags(case):
    ds = case["ds"]
    t = ["kind:" + ds["kind"], "form:" + ds.get("form", "c")]
    if ds["n_min"] <= 2:
        t.append("n_min<=2")
    if ds["gap"] == 0:
        t.append("balanced")
    if ds["d"] == 1:
        t.append("d=1")
    if "ss_params" in case["params"]:
        t.append("ss_params")
    if "nn_params" in case["params"]:
        t.append("nn_params")
    return t


def n_for(name, base, floor=6):
    c = params.SLOW.get(name, 1)
    if name == "DEAGO":
        return max(3, base // 100)
    return max(floor if c < 10 else min(floor, 5), int(base / c))
