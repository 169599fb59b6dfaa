import os
import time
import shutil
import importlib
import warnings
import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from smote_variants.base import load_dict, dump_dict
from smote_variants.evaluation import SamplingJob, ThreadTimeoutProcessPool
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip

ARR = ["X_train", "y_train", "X_test", "y_test"]
SCALERS = [["sklearn.preprocessing", "StandardScaler", {}],
           ["sklearn.preprocessing", "StandardScaler", {"with_mean": False}],
           ["sklearn.preprocessing", "MinMaxScaler", {"feature_range": [-1, 1]}],
           ["sklearn.preprocessing", "RobustScaler", {}],
           None]
CHEAPOS = [n for n in groups.ALL if params.SLOW.get(n, 1) <= 4]
# techniques with a transform of their own
DIM = ["ISOMAP_Hybrid", "E_SMOTE", "AMSCO"]


class VPInject:
    """oversampler stand-in whose failure is injected"""
    kinds = ["ok", "value", "runtime", "tvalue", "truntime", "warn",
             "warnvalue", "subvalue", "sleep"]

    def __init__(self, kind="ok", add=3, shift=0.5, random_state=None):
        self.kind, self.add, self.shift = kind, add, shift
        self.random_state = random_state

    def get_params(self, deep=False):
        return {"kind": self.kind, "add": self.add, "shift": self.shift,
                "random_state": self.random_state,
                "class_name": "VPInject"}

    def sample(self, X, y):
        if self.kind.startswith("warn"):
            warnings.warn("injected warning")
        if self.kind in ("value", "warnvalue"):
            raise ValueError("injected %s" % self.add)
        if self.kind == "subvalue":
            raise np.linalg.LinAlgError("injected %s" % self.add)
        if self.kind == "runtime":
            raise RuntimeError("injected %s" % self.add)
        if self.kind == "sleep":
            time.sleep(600)
        # touches its arguments the way an ill-behaved technique might not:
        # works on copies only
        return (np.vstack([X, X[:self.add] + 1.0]),
                np.hstack([y, y[:self.add]]))

    def preprocessing_transform(self, X):
        if self.kind == "tvalue":
            raise ValueError("injected %s" % self.add)
        if self.kind == "truntime":
            raise RuntimeError("injected %s" % self.add)
        return X * 2.0 + self.shift


sv.VPInject = VPInject


@st.composite
def base_case(draw):
    return {
        "ds": draw(gen.dataset(min_n_min=2, max_n_min=14, max_gap=22, max_d=5,
                               labels=[[0, 1], [0, 1], [1, 0], [3, 7]],
                               forms=["c", "c", "f", "ro", "int", "f32"])),
        "test": draw(st.integers(1, 12)), "tseed": draw(st.integers(0, 999)),
        "scaler": draw(st.sampled_from(SCALERS)),
        "mode": draw(st.sampled_from(["mem", "mem", "json", "pickle"])),
        "asfile": draw(st.booleans()),
        "rep": draw(st.integers(0, 12)), "fold": draw(st.integers(0, 12)),
        "rs": draw(st.integers(0, 999)),
    }


@st.composite
def real_case(draw, name):
    c = draw(base_case())
    c["cls"] = name
    if name == "DEAGO":
        raise AssertionError
    c["params"] = draw(params.strategy(name, ss=True, metric=False))
    c["again"] = draw(st.sampled_from([None, None, "same", "reset", "truncate",
                                       "empty", "delete"]))
    return c


@st.composite
def inject_case(draw):
    c = draw(base_case())
    c["cls"] = "VPInject"
    c["params"] = {"kind": draw(st.sampled_from(VPInject.kinds[:-1])),
                   "add": draw(st.integers(1, 4)),
                   "shift": draw(st.sampled_from([0.5, -1.0]))}
    c["again"] = draw(st.sampled_from([None, "same", "reset", "truncate",
                                       "timeout"]))
    c["timeout"] = draw(st.integers(0, 3)) == 0
    return c


@st.composite
def pool_case(draw):
    c = draw(base_case())
    c["cls"] = "VPInject"
    c["kinds"] = draw(st.lists(st.sampled_from(["ok", "sleep", "value", "sleep",
                                                "runtime"]),
                               min_size=1, max_size=4))
    c["params"] = {}
    c["workers"] = draw(st.integers(1, 4))
    return c


def make_fold(case, tseed=None, X=None, y=None):
    if X is None:
        X, y, mnl, mjl = gen.materialise(case["ds"])
    r = np.random.RandomState(case["tseed"])
    # test rows: drawn from the data, at least one member per class stays
    n = len(X)
    keep = [np.where(y == v)[0][0] for v in np.unique(y)]
    cand = np.array([i for i in r.permutation(n) if i not in keep], dtype=int)
    te = cand[:min(case["test"], len(cand))]
    if len(te) == 0:
        raise Skip("no test rows")
    tr = np.array([i for i in range(n) if i not in set(te.tolist())])
    return {"X_train": X[tr], "y_train": y[tr], "X_test": X[te], "y_test": y[te],
            "fold_descriptor": {"repeat_idx": case["rep"],
                                "fold_idx": case["fold"], "split_idx": 7,
                                "name": "db", "n_splits": 5}}


def os_params(case):
    p = dict(case["params"])
    if case["cls"] != "VPInject":
        for k, v in params.CHEAP.get(case["cls"], {}).items():
            p.setdefault(k, v)
        p = {k: (dict(v) if isinstance(v, dict) else params.tup(v))
             for k, v in p.items()}
    p["random_state"] = case["rs"]
    return p


def scaler_of(case):
    s = case["scaler"]
    if s is None:
        return None
    return (s[0], s[1], {k: params.tup(v) for k, v in s[2].items()})


def reference(case, fold, timeout=False):
    """own execution of the documented steps"""
    Xtr, Xte = fold["X_train"], fold["X_test"]
    s = scaler_of(case)
    if s is not None:
        sc = getattr(importlib.import_module(s[0]), s[1])(**s[2])
        sc.fit(Xtr)
        Xtr, Xte = sc.transform(Xtr), sc.transform(Xte)
    ref = {"X_train": Xtr, "y_train": fold["y_train"], "X_test": Xte,
           "y_test": fold["y_test"], "error": None}
    if timeout:
        ref["error"] = "TimeOutError"
        return ref
    obj = getattr(sv, case["cls"])(**os_params(case))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            A, b = obj.sample(Xtr, fold["y_train"])
            ref.update(X_test=obj.preprocessing_transform(Xte), X_train=A,
                       y_train=b)
    except (ValueError, RuntimeError) as e:
        ref["error"] = str(e)
    except Exception as e:      # noqa
        raise Skip("raised %s" % type(e).__name__)
    return ref


def compare(case, got, ref, fold, what=""):
    for k in ARR:
        a, b = np.asarray(got[k]), np.asarray(ref[k])
        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation("%s%s: %s of the job (%s) is not what scaling, "
                            "sampling and transforming give (%s)" % (
                                what, case["cls"], k, a.shape, b.shape),
                            sig="differs " + k)
    if got["error"] != ref["error"]:
        raise Violation("%s%s: error %r instead of %r" % (
            what, case["cls"], got["error"], ref["error"]), sig="error")
    if got["fold_descriptor"] != fold["fold_descriptor"]:
        raise Violation("%sdescriptor %s instead of %s" % (
            what, got["fold_descriptor"], fold["fold_descriptor"]),
            sig="descriptor")
    want = os_params(case)
    have = got["oversampler"]
    if have.get("class_name") != case["cls"]:
        raise Violation("%srecorded oversampler %s" % (what, have))
    for k, v in want.items():
        if k == "ss_params" or k == "nn_params":
            continue
        if params.jsonable(have.get(k)) != params.jsonable(v):
            raise Violation("%srecorded parameter %s=%r instead of %r" % (
                what, k, have.get(k), v), sig="params")
    if case["params"].get("kind", "").startswith("warn") and \
            ref["error"] != "TimeOutError" and \
            "injected warning" not in str(got["warning"]):
        raise Violation("%swarning not recorded: %r" % (what, got["warning"]),
                        sig="warning")


def plain(fn):
    """call with python's own warning filters"""
    try:
        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.simplefilter("default")
            with open(os.devnull, "w") as null:
                warnings.showwarning = lambda *a, **k: null.write(str(a))
                return fn()
    except Exception as e:      # noqa
        raise over.Raised(e) from None


def fetch(job, case, tmp, timeout=False):
    np.random.seed(case["rs"] + 77)
    out = plain(job.timeout if timeout else job.execute)
    if case["mode"] == "mem":
        if not isinstance(out, dict):
            raise Violation("uncached job returned %s" % type(out))
        return out, None
    if not isinstance(out, str) or not os.path.exists(out) or \
            os.path.dirname(out) != tmp:
        raise Violation("cached job returned %r" % (out,))
    return load_dict(out, case["mode"], ARR), out


def job_of(case, fold, tmp, **kw):
    return SamplingJob(fold, case["cls"], os_params(case),
                       scaler=scaler_of(case),
                       cache_path=None if case["mode"] == "mem" else tmp,
                       serialization="json" if case["mode"] == "mem"
                       else case["mode"], **kw)


def evaluate(case):
    fold = make_fold(case)
    ref = reference(case, fold, case.get("timeout", False))
    own = {k: np.array(fold[k]) for k in ARR}
    tmp = over.scratch("vp-c18-")
    try:
        src = fold
        if case["asfile"]:
            fmt = "pickle" if case["mode"] == "pickle" else "json"
            src = os.path.join(tmp, "fold_x." + fmt)
            dump_dict(fold, src, fmt, ARR)
            if case["ds"]["form"] in ("int", "f32") and fmt == "json":
                f2 = dict(fold)
                for k in ARR:
                    f2[k] = np.array(fold[k], dtype=float)
                fold = f2
                ref = reference(case, fold, case.get("timeout", False))
        try:
            got, path = fetch(job_of(case, src, tmp), case, tmp,
                              case.get("timeout", False))
        except over.Raised as e:
            raise Violation("%s: sampling job: %s" % (case["cls"], e), sig=e.sig)
        compare(case, got, ref, fold)
        for k in ARR:
            if not case["asfile"] and not np.array_equal(own[k], fold[k]):
                raise Violation("the job modified the fold (%s)" % k,
                                sig="modified")
        if len(got["y_test"]) != len(got["X_test"]):
            raise Violation("%d test rows, %d labels" % (
                len(got["X_test"]), len(got["y_test"])))
        # other test rows: the training part stays
        f2 = dict(fold)
        f2["X_test"] = (np.array(fold["X_test"])[::-1] * 3 + 1).astype(
            fold["X_test"].dtype)
        f2["y_test"] = np.array(fold["y_test"])[::-1]
        got2, p2 = fetch(job_of(case, f2, tmp), case, tmp,
                         case.get("timeout", False))
        ref2 = reference(case, f2, case.get("timeout", False))
        compare(case, got2, ref2, f2, "other test rows: ")
        if not (np.array_equal(got["X_train"], got2["X_train"])
                and np.array_equal(got["y_train"], got2["y_train"])):
            raise Violation("the training part depends on the test rows")
        if path is not None and case["again"]:
            how = case["again"]
            st0 = open(path, "rb").read()
            if how == "truncate":
                with open(path, "r+b") as h:
                    h.truncate(int(len(st0) * 0.6))
            elif how == "empty":
                open(path, "w").close()
            elif how == "delete":
                os.remove(path)
            job = job_of(case, src, tmp, reset=how == "reset")
            got3, p3 = fetch(job, case, tmp, case.get("timeout", False) or
                             how == "timeout")
            if p3 != path:
                raise Violation("second run uses another file: %s" % p3)
            compare(case, got3, ref, fold, "second run (%s): " % how)
            # an existing result is used as it is
            if how in ("same", "timeout") and open(path, "rb").read() != st0:
                raise Violation("an intact cached result was rewritten",
                                sig="rewritten")
        return {"nontrivial": ref["error"] is not None or
                len(ref["X_train"]) != len(fold["X_train"]),
                "tags": [case["mode"], "error" if ref["error"] else "sampled",
                         "scaled" if case["scaler"] else "unscaled"]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def eval_pool(case):
    """the same job objects through the pool with a time limit"""
    tmp = over.scratch("vp-c18-")
    try:
        fold = make_fold(case)
        cs = []
        for i, k in enumerate(case["kinds"]):
            c = dict(case, params={"kind": k, "add": i + 1, "shift": 0.5})
            cs.append(c)
        jobs = [job_of(c, fold, tmp) for c in cs]
        out = over.guarded(ThreadTimeoutProcessPool(
            case["workers"], 1.5).execute, jobs)
        for c, o in zip(cs, out):
            if isinstance(o, str):
                o = load_dict(o, case["mode"], ARR)
            if o is None:
                raise Violation("no result for %s" % c["params"], sig="none")
            compare(c, o, reference(c, fold, c["params"]["kind"] == "sleep"),
                    fold, "pool: ")
        return {"nontrivial": "sleep" in case["kinds"], "tags": ["pool"]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tasks(tier):
    q = tier == "quick"
    out = []
    for name in CHEAPOS + DIM:
        if name == "DEAGO":
            continue
        n = (18 if q else 250) // (1 if params.SLOW.get(name, 1) <= 4 else 3)
        out.append(Task(name, lambda name=name: real_case(name), evaluate, n,
                        cost=params.SLOW.get(name, 1)))
    for i in range(3):
        out.append(Task("inject#%d" % i, inject_case, evaluate,
                        500 if q else 6000))
    for i in range(4):
        out.append(Task("pool#%d" % i, pool_case, eval_pool, 3 if q else 40,
                        cost=300))
    return out


RUNNER = Runner(
    "C18", "",
    "one case = fold (data, test rows, labels, memory layout) x technique and "
    "parameters (or a stand-in that fails on request) x scaler x in memory / "
    "json / pickle x second run on the intact, reset, truncated, emptied or "
    "missing result; non-trivial = the technique generated samples or failed",
    ["both classes are present in the training fold",
     "DEAGO and the slowest techniques are left to C01-C09"], tasks)
