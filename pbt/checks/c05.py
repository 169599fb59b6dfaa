import copy
import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from smote_variants import config, noise_removal
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip

FILTERS = ["TomekLinkRemoval", "CondensedNearestNeighbors", "OneSidedSelection",
           "CNNTomekLinks", "NeighborhoodCleaningRule",
           "EditedNearestNeighbors"]
# seeds numpy's global generator by design (keras-style network)
GLOBAL_RNG_EXEMPT = ["DEAGO"]


@st.composite
def over_case(draw, name):
    c = draw(over.over_case(name, ds=dict(labels=gen.LABELS, forms=gen.FORMS),
                            pk=dict(metric=True, gaussian=True)))
    c["g"] = draw(st.integers(0, 99))
    return c


@st.composite
def filter_case(draw, name):
    p = {}
    if name in ("TomekLinkRemoval", "EditedNearestNeighbors"):
        p["strategy" if name == "TomekLinkRemoval" else "remove"] = draw(
            st.sampled_from(["remove_majority", "remove_both"]
                            if name == "TomekLinkRemoval" else
                            ["both", "min", "maj"]))
    return {"cls": name, "ds": draw(gen.dataset(
        min_n_min=1, labels=gen.LABELS, forms=gen.FORMS)),
        "params": p, "g": draw(st.integers(0, 99))}


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def cfg():
    return (config.suppress_external_warnings(),
            config.suppress_internal_warnings(),
            config.distance_matrix_max_memory_chunk())


def watched(case, call):
    name = case["cls"]
    X, y, _, _ = gen.materialise(case["ds"])
    X0, y0 = X.copy(), y.copy()
    np.random.seed(case["g"])
    g0 = rng_state()
    c0 = cfg()
    err = None
    try:
        out = call(X, y)
    except over.Raised as e:
        err = e
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("%s modified the caller's data" % name,
                        sig=name + " data")
    if name not in GLOBAL_RNG_EXEMPT and rng_state() != g0:
        raise Violation("%s changed the state of numpy's global generator"
                        % name, sig=name + " rng")
    if cfg() != c0:
        raise Violation("%s changed the package configuration" % name)
    if err is not None:
        if "read-only" in str(err):
            raise Violation("%s tried to write into the caller's read-only "
                            "data: %s" % (name, err), sig=name + " data")
        raise Skip("raised " + err.sig)
    for o in out:
        for i in (X, y):
            if np.shares_memory(o, i):
                raise Violation("%s: the returned array shares memory with the "
                                "input" % name, sig=name + " alias")
    return X, out


def same(a, b):
    """deep equality of parameter values"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if a is None or isinstance(a, (bool, int, float, str, np.generic)):
        return bool(a == b) or (a != a and b != b)
    return True


def parameters(obj):
    return copy.deepcopy(over.guarded(obj.get_params))


def eval_over(case):
    name = case["cls"]
    dicts = {}
    for k, v in case["params"].items():
        if isinstance(v, dict):
            dicts[k] = copy.deepcopy(v)
    kw = {k: (dicts[k] if k in dicts else params.tup(v))
          for k, v in case["params"].items()}
    for k, v in params.CHEAP.get(name, {}).items():
        kw.setdefault(k, v)
    before = copy.deepcopy(dicts)
    np.random.seed(case["g"])
    g0 = rng_state()
    try:
        obj = over.guarded(getattr(sv, name), random_state=case["rs"], **kw)
    except over.Raised as e:
        raise Skip("raised " + e.sig)
    if rng_state() != g0 and name not in GLOBAL_RNG_EXEMPT:
        raise Violation("constructing %s changed the global generator" % name)
    p0 = parameters(obj)
    X, out = watched(case, lambda X, y: over.guarded(
        getattr(obj, case["entry"]), X, y))
    p1 = parameters(obj)
    if not same(p0, p1):
        raise Violation("sampling changed the parameters of %s: %s" % (
            name, sorted(k for k in set(p0) | set(p1)
                         if k not in p0 or k not in p1
                         or not same(p0[k], p1[k]))), sig=name + " params")
    if dicts != before:
        raise Violation("%s changed the caller's parameter dictionary: %s -> %s"
                        % (name, before, dicts), sig=name + " dict")
    return {"nontrivial": len(out[0]) != len(X), "tags": over.tags(case)}


def eval_filter(case):
    obj = getattr(noise_removal, case["cls"])(**case["params"])
    X, out = watched(case, lambda X, y: over.guarded(obj.remove_noise, X, y))
    return {"nontrivial": len(out[0]) != len(X), "tags": over.tags(case)}


def tasks(tier):
    base = 150 if tier == "quick" else 2000
    t = [Task(n, lambda n=n: over_case(n), eval_over, over.n_for(n, base),
              cost=params.SLOW.get(n, 1)) for n in groups.ALL]
    t += [Task(n, lambda n=n: filter_case(n), eval_filter, base)
          for n in FILTERS]
    return t


RUNNER = Runner(
    "C05", "",
    "one case = technique or filter x parameters x dataset (incl. read-only, "
    "strided, Fortran, float32 and integer arrays); non-trivial = distinct case "
    "whose call changed the number of rows",
    ["calls that raise are still judged for side effects, then counted as not "
     "judged",
     "DEAGO is exempt from the generator clause (it seeds numpy globally)"],
    tasks)
