import importlib
import warnings
import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone, is_classifier
from sklearn.model_selection import GridSearchCV
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
import smote_variants as sv
from smote_variants.classifiers import OversamplingClassifier
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip, dumps

CHEAPOS = [n for n in groups.ALL if params.SLOW.get(n, 1) <= 4]
DIM = ["ISOMAP_Hybrid", "E_SMOTE", "AMSCO"]
CLF = [["sklearn.tree", "DecisionTreeClassifier", {"random_state": 5}],
       ["sklearn.tree", "DecisionTreeClassifier", {"random_state": 1,
                                                   "max_depth": 2}],
       ["sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}],
       ["sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 2,
                                                      "weights": "distance"}],
       ["sklearn.naive_bayes", "GaussianNB", {}],
       ["sklearn.dummy", "DummyClassifier", {"strategy": "prior"}],
       ["sklearn.linear_model", "RidgeClassifier", {"alpha": 0.5}]]
ROUTES = ["fresh", "fresh", "clone", "set", "rebuild", "refit", "reset_fitted",
          "pipeline", "copy"]


@st.composite
def case_of(draw, name):
    return {
        "cls": name,
        "ds": draw(gen.dataset(min_n_min=2, max_n_min=14, max_gap=22, max_d=5,
                               labels=gen.LABELS, forms=["c", "c", "f", "ro",
                                                         "int"])),
        "params": draw(params.strategy(name, ss=True)),
        "rs": draw(st.integers(0, 999)),
        "clf": draw(st.integers(0, len(CLF) - 1)),
        "route": draw(st.sampled_from(ROUTES)),
        "m": draw(st.integers(1, 8)), "tseed": draw(st.integers(0, 999))}


@st.composite
def grid_case(draw):
    names = draw(st.lists(st.sampled_from(
        ["SMOTE", "NoSMOTE", "ADASYN", "ISOMAP_Hybrid", "SMOTE_TomekLinks",
         "Borderline_SMOTE1", "ROSE", "SPY"]), min_size=1, max_size=3,
        unique=True))
    return {"names": names, "rs": draw(st.integers(0, 99)),
            "clf": sorted(draw(st.lists(st.integers(0, 4), min_size=1,
                                        max_size=2, unique=True))),
            "ds": draw(gen.dataset(min_n_min=4, max_n_min=12, max_gap=15,
                                   max_d=4, labels=gen.LABELS, forms=["c"])),
            "S": draw(st.integers(2, 3)), "tseed": draw(st.integers(0, 999)),
            "pipe": draw(st.booleans())}


def build_clf(c):
    return getattr(importlib.import_module(c[0]), c[1])(**c[2])


def test_points(X, seed, m):
    r = np.random.RandomState(seed)
    A = np.array(X[r.randint(0, len(X), m)], dtype=float)
    return A + r.normal(size=A.shape) * r.choice([0.0, 0.1, 2.0])


def os_tuple(case):
    p = dict(case["params"])
    for k, v in params.CHEAP.get(case["cls"], {}).items():
        p.setdefault(k, v)
    p = {k: (dict(v) if isinstance(v, dict) else params.tup(v))
         for k, v in p.items()}
    p["random_state"] = case["rs"]
    return ("smote_variants", case["cls"], p)


def fit_reference(ost, clt, X, y, times=1):
    obj = getattr(sv, ost[1])(**ost[2])
    clf = build_clf(clt)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(times):
            A, b = obj.sample(X, y)
            clf.fit(A, b)
    return obj, clf


def evaluate(case):
    X, y, _, _ = gen.materialise(case["ds"])
    T = test_points(X, case["tseed"], case["m"])
    ost = os_tuple(case)
    clt = tuple(CLF[case["clf"]])
    route = case["route"]
    F, G = X, T
    if route == "pipeline":
        s = StandardScaler().fit(X)
        F, G = s.transform(X), s.transform(T)
    try:
        obj, clf = fit_reference(ost, clt, F, y, 2 if route == "refit" else 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Z = obj.preprocessing_transform(G)
            want = clf.predict(Z)
            proba = clf.predict_proba(Z) if hasattr(
                clf, "predict_proba") else None
    except Exception as e:      # noqa
        raise Skip("reference raises %s" % type(e).__name__)
    if not set(np.unique(want).tolist()) <= set(np.unique(y).tolist()):
        raise Skip("classifier predicts other labels")
    other = ("smote_variants", "SMOTE", {"random_state": 77})
    try:
        if route in ("set", "reset_fitted"):
            oc = OversamplingClassifier(other, ("sklearn.dummy",
                                                "DummyClassifier", {}))
            if route == "reset_fitted":
                over.guarded(oc.fit, X, y)
            oc = over.guarded(oc.set_params, oversampler=ost, classifier=clt)
        else:
            oc = over.guarded(OversamplingClassifier, ost, clt)
        if route in ("clone", "copy"):
            orig = oc
            if route == "copy":
                # cloning a fitted estimator gives an unfitted equal one
                over.guarded(orig.fit, X[::-1], y[::-1])
            oc = over.guarded(clone, orig)
        if route == "rebuild":
            oc = OversamplingClassifier(**oc.get_params())
        gp = oc.get_params()
        if gp.get("oversampler") != ost or gp.get("classifier") != clt:
            raise Violation("get_params gives %s for %s %s" % (gp, ost, clt),
                            sig="get_params")
        if not is_classifier(oc):
            raise Violation("not recognised as a classifier")
        if route == "pipeline":
            oc = Pipeline([("s", StandardScaler()), ("c", oc)])
        X0, y0 = X.copy(), y.copy()
        ret = over.guarded(oc.fit, X, y)
        if ret is not oc:
            raise Violation("fit does not return the estimator")
        if route == "refit":
            over.guarded(oc.fit, X, y)
        got = over.guarded(oc.predict, T)
        gotp = over.guarded(oc.predict_proba, T) if proba is not None else None
        again = over.guarded(oc.predict, T)
    except over.Raised as e:
        raise Violation("%s + %s (%s): %s" % (case["cls"], clt[1], route, e),
                        sig="%s %s" % (route, e.sig))
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("fit modifies its data")
    if got is None or np.shape(got) != (len(T),):
        raise Violation("%s: predictions %r for %d rows" % (
            case["cls"], got, len(T)), sig="shape")
    if not np.array_equal(got, want) or not np.array_equal(again, want):
        raise Violation("%s + %s (%s): predictions %s, sampling and fitting "
                        "separately gives %s" % (
                            case["cls"], clt[1], route, got.tolist(),
                            want.tolist()), sig="predict " + route)
    if proba is not None and (np.shape(gotp) != proba.shape or not np.allclose(
            gotp, proba, rtol=1e-9, atol=1e-12, equal_nan=True)):
        raise Violation("%s + %s (%s): probabilities differ" % (
            case["cls"], clt[1], route), sig="proba " + route)
    if route != "pipeline":
        if not np.array_equal(oc.classes_, clf.classes_):
            raise Violation("classes_ is %s instead of %s" % (
                oc.classes_, clf.classes_), sig="classes")
    return {"nontrivial": len(np.unique(want)) > 1,
            "tags": ["route:" + route, "clf:" + clt[1]]}


def eval_grid(case):
    X, y, _, _ = gen.materialise(case["ds"])
    T = test_points(X, case["tseed"], 6)
    osl = [("smote_variants", n, {"random_state": case["rs"]} if n != "NoSMOTE"
            else {}) for n in case["names"]]
    cll = [tuple(CLF[i]) for i in case["clf"]]
    r = np.random.RandomState(case["rs"])
    # explicit stratified splits
    fold = np.zeros(len(y), dtype=int)
    for v in np.unique(y):
        i = r.permutation(np.where(y == v)[0])
        fold[i] = np.arange(len(i)) % case["S"]
    splits = [(np.where(fold != f)[0], np.where(fold == f)[0])
              for f in range(case["S"])]
    want = {}
    try:
        for o in osl:
            for c in cll:
                acc = []
                for tr, te in splits:
                    obj, clf = fit_reference(o, c, X[tr], y[tr])
                    acc.append(float(np.mean(clf.predict(
                        obj.preprocessing_transform(X[te])) == y[te])))
                want[dumps([o, c])] = float(np.mean(acc))
    except Exception as e:      # noqa
        raise Skip("reference raises %s" % type(e).__name__)
    base = OversamplingClassifier(osl[-1], cll[-1])
    pre = ""
    if case["pipe"]:
        base, pre = Pipeline([("c", base)]), "c__"
    gs = GridSearchCV(base, {pre + "oversampler": osl, pre + "classifier": cll},
                      cv=splits, scoring="accuracy", error_score="raise")
    try:
        over.guarded(gs.fit, X, y)
        got = {}
        for p, m in zip(gs.cv_results_["params"],
                        gs.cv_results_["mean_test_score"]):
            got[dumps([p[pre + "oversampler"], p[pre + "classifier"]])] = \
                float(m)
        if set(got) != set(want):
            raise Violation("grid search over %s" % sorted(got))
        for k in want:
            if abs(got[k] - want[k]) > 1e-9:
                raise Violation("grid search scores %s with %r, computed "
                                "directly it is %r" % (k, got[k], want[k]),
                                sig="grid score")
        b = gs.best_params_
        obj, clf = fit_reference(b[pre + "oversampler"], b[pre + "classifier"],
                                 X, y)
        w = clf.predict(obj.preprocessing_transform(T))
        g = over.guarded(gs.predict, T)
        if not np.array_equal(w, g):
            raise Violation("the refitted best estimator predicts %s, a fresh "
                            "one %s" % (g.tolist(), w.tolist()),
                            sig="grid predict")
    except over.Raised as e:
        raise Violation("grid search: %s" % e, sig="grid " + e.sig)
    return {"nontrivial": len(want) > 1, "tags": ["grid"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for name in CHEAPOS + DIM:
        if name == "DEAGO":
            continue
        n = (30 if q else 500) // (1 if params.SLOW.get(name, 1) <= 4 else 3)
        out.append(Task(name, lambda name=name: case_of(name), evaluate, n,
                        cost=params.SLOW.get(name, 1)))
    for i in range(3):
        out.append(Task("grid#%d" % i, grid_case, eval_grid, 40 if q else 1000,
                        cost=8))
    return out


RUNNER = Runner(
    "C23", "",
    "one case = technique and parameters x classifier x data x inputs to "
    "predict x how the estimator came about (new, cloned, cloned from a fitted "
    "one, set_params before or after fitting, rebuilt from get_params, fitted "
    "twice, in a pipeline), or a grid search; non-trivial = both labels are "
    "predicted, or more than one grid point",
    ["integer random_state; deterministic classifiers",
     "DEAGO and the slowest techniques are left out"], tasks)
