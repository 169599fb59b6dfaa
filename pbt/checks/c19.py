import os
import glob
import shutil
import importlib
import builtins
import warnings
import numpy as np
from hypothesis import strategies as st
import joblib
import smote_variants as sv
from sklearn.model_selection import RepeatedStratifiedKFold
from smote_variants.base import load_dict
from smote_variants.base import calculate_all_scores
from smote_variants.evaluation import evaluate_oversamplers
from .. import gen, params, over
from ..core import Task, Runner, Violation, dumps
from . import c18

OSL = [["SMOTE", {"random_state": 5}],
       ["SMOTE", {"random_state": 5, "proportion": 0.5}],
       ["SMOTE", {"random_state": 8, "n_neighbors": 2}],
       ["NoSMOTE", {}],
       ["ADASYN", {"random_state": 3}],
       ["Borderline_SMOTE1", {"random_state": 1}],
       ["SMOTE_ENN", {"random_state": 5}],
       ["SMOTE_TomekLinks", {"random_state": 5}],
       ["distance_SMOTE", {"random_state": 2, "proportion": 1.5}],
       ["ISOMAP_Hybrid", {"random_state": 5, "n_components": 2}],
       ["Random_SMOTE", {"random_state": 4}],
       ["ROSE", {"random_state": 4}],
       ["SPY", {"random_state": 4}],
       ["MSMOTE", {"random_state": 4}],
       ["ProWSyn", {"random_state": 6}],
       ["kmeans_SMOTE", {"random_state": 6}],
       ["VPInject", {"kind": "value", "add": 2, "random_state": 1}],
       ["VPInject", {"kind": "runtime", "add": 2, "random_state": 1}],
       ["VPInject", {"kind": "ok", "add": 2, "random_state": 1}]]
CLL = [["sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3}],
       ["sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}],
       ["sklearn.tree", "DecisionTreeClassifier",
        {"random_state": 5, "max_depth": 3}],
       ["sklearn.tree", "DecisionTreeClassifier",
        {"random_state": 5, "max_depth": 1}],
       ["sklearn.naive_bayes", "GaussianNB", {}],
       ["smote_variants.classifiers", "ErrorWarningClassifier",
        {"raise_value_error": True}],
       ["smote_variants.classifiers", "ErrorWarningClassifier",
        {"raise_runtime_error": True}],
       ["smote_variants.classifiers", "ErrorWarningClassifier",
        {"raise_warning": True}]]
SC = [["sklearn.preprocessing", "StandardScaler", {}],
      ["sklearn.preprocessing", "StandardScaler", {}],
      ["sklearn.preprocessing", "MinMaxScaler", {}], None]


def subset(draw, pool, hi):
    idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=hi,
                        unique=True))
    return sorted(idx)


@st.composite
def case_of(draw, mode):
    S = draw(st.integers(2, 4))
    dss = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        ds = draw(gen.dataset(min_n_min=2, max_n_min=12, max_gap=18, max_d=4,
                              labels=[[0, 1], [0, 1], [1, 0]], forms=["c"]))
        ds["n_min"] = max(ds["n_min"], S)
        dss.append(ds)
    c = {"dss": dss, "S": S, "R": draw(st.sampled_from([1, 1, 2])),
         "vrs": draw(st.integers(0, 99)),
         "os": subset(draw, OSL, 3), "cl": subset(draw, CLL, 2),
         "mode": mode}
    if mode == "mem":
        c["ops"] = [["run", draw(run_op(["mem"]))]]
        return c
    jobs = [1, 1, 1, 2] if mode == "seq" else [1, 2, 3]
    ops = [["run", draw(run_op(["json", "json", "pickle"], jobs))]]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["run", "damage", "damage", "crash"]))
        if k == "run":
            ops.append(["run", draw(run_op(["json", "json", "pickle"], jobs))])
        elif k == "damage":
            ops.append(["damage",
                        draw(st.sampled_from(["delete", "truncate", "empty"])),
                        draw(st.sampled_from(["fold", "oversampling",
                                              "evaluation", "*", "*"])),
                        draw(st.lists(st.integers(0, 60), min_size=1,
                                      max_size=4)),
                        draw(st.floats(0, 0.999))])
        else:
            ops.append(["crash", draw(st.integers(0, 30)),
                        draw(st.sampled_from([0, 1, 17, 200, 1000, 3000])),
                        draw(run_op(["json", "pickle"], [1]))])
    ops.append(["run", draw(run_op([ops[0][1]["ser"]], jobs))])
    c["ops"] = ops
    return c


@st.composite
def run_op(draw, sers, jobs=(1, 1, 2)):
    return {"ser": draw(st.sampled_from(sers)),
            "n_jobs": draw(st.sampled_from(list(jobs))),
            "clean": draw(st.sampled_from(["none", "oversamplings", "all",
                                           "none"])),
            "scaler": draw(st.sampled_from([0, 0, 0, 2, 3])),
            "part": draw(st.sampled_from(["all", "all", "all", "first"])),
            "swap": draw(st.sampled_from([False, False, False, True]))}


def data_of(case, i, swap):
    """swap: other contents under the same dataset name"""
    ds = dict(case["dss"][i])
    if swap:
        ds["seed"] += 1
    X, y, _, _ = gen.materialise(ds)
    return X, y


def tuples(case, op):
    oi, ci = case["os"], case["cl"]
    if op["part"] == "first":
        oi, ci = oi[:1], ci[:1]
    if op["ser"] == "mem" and op["n_jobs"] > 1:
        # a stand-in does not exist in freshly started worker processes
        oi = [i for i in oi if OSL[i][0] != "VPInject"] or [0]
    return ([("smote_variants", OSL[i][0], dict(OSL[i][1])) for i in oi],
            [(CLL[i][0], CLL[i][1], dict(CLL[i][2])) for i in ci])


def scaler(op):
    s = SC[op["scaler"]]
    return None if s is None else (s[0], s[1], dict(s[2]))


def key_of(name, rep, fold, osp, clm, cln, clp):
    osp = {k: v for k, v in osp.items() if k != "description"}
    return (name, rep, fold, dumps(params.jsonable(osp)), clm, cln,
            dumps(params.jsonable(clp)))


def reference(case, op, memo):
    """the same evaluation written out directly"""
    oss, cls = tuples(case, op)
    sc = scaler(op)
    out = {}
    mk = dumps([op["scaler"], op["swap"], op["part"],
                [o[1:] for o in oss], [c[1:] for c in cls]])
    if mk in memo:
        return memo[mk]
    for i in range(len(case["dss"])):
        X, y = data_of(case, i, op["swap"])
        v = RepeatedStratifiedKFold(n_splits=case["S"], n_repeats=case["R"],
                                    random_state=case["vrs"])
        for j, (tr, te) in enumerate(v.split(X, y)):
            Xtr, ytr, Xte, yte = X[tr], y[tr], X[te], y[te]
            if sc is not None:
                s = getattr(importlib.import_module(sc[0]), sc[1])(**sc[2])
                Xtr = s.fit_transform(Xtr)
                Xte = s.transform(Xte)
            for _, name, pars in oss:
                err = None
                obj = getattr(sv, name)(**pars)
                A, b, T = Xtr, ytr, Xte
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        A_, b_ = obj.sample(Xtr, ytr)
                        T = obj.preprocessing_transform(Xte)
                        A, b = A_, b_
                    except (ValueError, RuntimeError) as e:
                        err = str(e)
                    for cm, cn, cp in cls:
                        clf = getattr(importlib.import_module(cm), cn)(**cp)
                        cerr = False
                        try:
                            p = clf.fit(A, b).predict_proba(T)
                        except (ValueError, RuntimeError):
                            cerr = True
                        if cerr or p.shape[1] != 2 or np.isnan(p).any():
                            cerr, p = True, np.zeros((len(yte), 2))
                        osp = {**pars, **obj.get_params()}
                        k = key_of("db%d" % i, j // case["S"], j % case["S"],
                                   osp, cm, cn, cp)
                        out[k] = (yte, p[:, 1], err, cerr)
    memo[mk] = out
    return out


def run(case, op, tmp):
    oss, cls = tuples(case, op)
    dss = []
    for i in range(len(case["dss"])):
        X, y = data_of(case, i, op["swap"])
        dss.append({"data": X, "target": y, "name": "db%d" % i})
    kw = dict(validator_params={"n_repeats": case["R"], "n_splits": case["S"],
                                "random_state": case["vrs"]},
              scaler=scaler(op), n_jobs=op["n_jobs"], parse_results=False,
              clean_up=op["clean"], verbosity=0)
    if op["ser"] != "mem":
        kw.update(cache_path=tmp, serialization=op["ser"], timeout=100)
    be = "threading" if case["mode"] != "loky" else "loky"
    with joblib.parallel_config(backend=be):
        res = evaluate_oversamplers(dss, oss, cls, **kw)
    out = []
    for r in res:
        if isinstance(r, str):
            r = load_dict(r, op["ser"], ["y_pred", "y_test"])
        out.append(r)
    return out


def compare(res, ref, what):
    seen = set()
    for r in res:
        d = r["fold_descriptor"]
        k = key_of(d["name"], d["repeat_idx"], d["fold_idx"],
                   r["oversampler_params"], r["classifier_module"],
                   r["classifier"], r["classifier_params"])
        if k not in ref:
            raise Violation("%s: result for %s, which was not asked for" % (
                what, k), sig="extra")
        if k in seen:
            raise Violation("%s: two results for %s" % (what, k), sig="twice")
        seen.add(k)
        yte, p, err, cerr = ref[k]
        if not np.array_equal(np.asarray(r["y_test"], dtype=float),
                              np.asarray(yte, dtype=float)):
            raise Violation("%s: y_test of %s differs" % (what, k),
                            sig="y_test")
        q = np.asarray(r["y_pred"], dtype=float)
        if q.shape != p.shape or not np.allclose(q, p, rtol=1e-7, atol=1e-9):
            raise Violation("%s: predictions of %s are %s instead of %s" % (
                what, k, q.tolist()[:6], p.tolist()[:6]), sig="y_pred")
        if r["oversampling_error"] != err:
            raise Violation("%s: oversampling error %r instead of %r (%s)" % (
                what, r["oversampling_error"], err, k), sig="error")
        if (r["error"] is not None) != cerr:
            raise Violation("%s: recorded classifier error %r (%s)" % (
                what, r["error"], k), sig="classifier error")
        want = calculate_all_scores(np.asarray(yte), p)
        have = r["scores"]
        if set(want) != set(have):
            raise Violation("%s: scores %s" % (what, sorted(have)))
        for s in want:
            a, b = want[s], have[s]
            if (a is None) != (b is None) or (a is not None and not np.isclose(
                    a, b, rtol=1e-6, atol=1e-6, equal_nan=True)):
                raise Violation("%s: %s of %s is %r instead of %r" % (
                    what, s, k, b, a), sig="score")
        if r["oversampler_module"] != "smote_variants" or \
                r["oversampler_params"].get("class_name") != r["oversampler"]:
            raise Violation("%s: oversampler recorded as %s %s" % (
                what, r["oversampler_module"], r["oversampler"]))
    if len(seen) != len(ref):
        miss = [k for k in ref if k not in seen]
        raise Violation("%s: %d of %d results missing, e.g. %s" % (
            what, len(miss), len(ref), miss[0]), sig="missing")


class _Cut:
    """file object that ends the process after some written bytes"""

    def __init__(self, f, limit):
        self._f, self._left = f, limit

    def write(self, data):
        if not isinstance(data, str):
            data = bytes(data)
        if len(data) > self._left:
            self._f.write(data[:self._left])
            self._f.flush()
            os._exit(9)
        self._left -= len(data)
        return self._f.write(data)

    def __getattr__(self, a):
        return getattr(self._f, a)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)


def crash(case, op, k, limit, tmp):
    """run in a child process that dies while writing its k-th cache file"""
    pid = os.fork()
    if pid == 0:
        try:
            real = builtins.open
            count = [0]

            def cut_open(file, mode="r", *a, **kw):
                f = real(file, mode, *a, **kw)
                if isinstance(file, (str, os.PathLike)) and str(
                        file).startswith(tmp) and set(mode) & set("wax+"):
                    count[0] += 1
                    if count[0] == k + 1:
                        return _Cut(f, limit)
                return f
            builtins.open = cut_open
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            run(case, op, tmp)
        except BaseException:       # noqa
            pass
        finally:
            os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.WIFEXITED(status) and os.WEXITSTATUS(status) == 9


def evaluate(case):
    tmp = over.scratch("vp-c19-")
    memo = {}
    tags = set()
    hist = []
    try:
        for op in case["ops"]:
            hist.append(op)
            if op[0] == "run":
                ref = reference(case, op[1], memo)
                try:
                    np.random.seed(len(hist))
                    res = over.guarded(run, case, op[1], tmp)
                except over.Raised as e:
                    raise Violation("evaluation fails: %s (history %s)" % (
                        e, dumps(hist)), sig=e.sig)
                compare(res, ref, "after %s" % dumps(hist))
                tags.add(op[1]["ser"])
                tags.add("parallel" if op[1]["n_jobs"] > 1 else "sequential")
            elif op[0] == "crash":
                reference(case, op[3], memo)
                if crash(case, op[3], op[1], op[2], tmp):
                    tags.add("crash while writing")
            else:
                _, how, kind, idx, frac = op
                files = sorted(f for f in glob.glob(os.path.join(
                    tmp, "*", kind + ("*" if kind != "*" else "")))
                    if os.path.isfile(f))
                for i in {j % len(files) for j in idx} if files else ():
                    tags.add("%s %s" % (how, os.path.basename(
                        files[i]).split("_")[0]))
                    if how == "delete":
                        os.remove(files[i])
                    else:
                        with open(files[i], "r+b") as h:
                            h.truncate(0 if how == "empty" else int(
                                os.path.getsize(files[i]) * frac))
        return {"nontrivial": len(case["ops"]) > 1, "tags": sorted(tags)}
    finally:
        if case["mode"] == "loky":
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
        shutil.rmtree(tmp, ignore_errors=True)


def tasks(tier):
    q = tier == "quick"
    out = []
    for i in range(6):
        out.append(Task("seq#%d" % i, lambda: case_of("seq"), evaluate,
                        50 if q else 1500, cost=30))
    for i in range(2):
        out.append(Task("par#%d" % i, lambda: case_of("par"), evaluate,
                        25 if q else 700, cost=60))
    out.append(Task("mem", lambda: case_of("mem"), evaluate,
                    200 if q else 4000, cost=4))
    out.append(Task("loky", lambda: case_of("loky"), evaluate,
                    2 if q else 60, cost=300, case_limit=240))
    return out


RUNNER = Runner(
    "C19", "",
    "one case = datasets x validator settings x oversamplers (some failing) x "
    "classifiers (some failing) x history of runs (json / pickle, 1-3 jobs, "
    "clean-up mode, scaler, subset of the work, other contents under the same "
    "name), of deleted / truncated / emptied cache files and of runs that die "
    "while writing a cache file; every run is compared with a direct "
    "computation; non-trivial = at least two steps",
    ["labels are 0 and 1 (what the scores are defined for)",
     "the number of members of the smaller class is at least the number of "
     "splits"], tasks)
