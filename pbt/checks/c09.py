import ast
import copy
import inspect
import json
import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from smote_variants import noise_removal
from smote_variants.classifiers import MLPClassifierWrapper
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip

FILTERS = ["TomekLinkRemoval", "CondensedNearestNeighbors", "OneSidedSelection",
           "CNNTomekLinks", "NeighborhoodCleaningRule",
           "EditedNearestNeighbors"]


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items() if x is not None}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def same(out_a, out_b):
    return all(np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind == "f")
               for a, b in zip(out_a, out_b))


def eval_over(case):
    name = case["cls"]
    cls = getattr(sv, name)
    try:
        a = over.guarded(params.build, name, case["params"], case["rs"])
    except over.Raised as e:
        raise Violation("%s cannot be built from %s: %s" % (
            name, case["params"], e), sig=name + " build")
    p = a.get_params()
    for k in params.ctor_params(name):
        if k.startswith("_"):
            continue
        if k not in p:
            raise Violation("%s.get_params() lacks the constructor parameter %s"
                            % (name, k), sig=name + " lacks " + k)
    given = dict(params.CHEAP.get(name, {}))
    given.update(case["params"])
    given["random_state"] = case["rs"]
    for k, v in given.items():
        if k in ("ss_params", "nn_params"):
            for kk, vv in v.items():
                if vv in ({}, None):
                    continue
                if name in FORCED_DIM and kk in ("n_dim",
                                                 "within_simplex_sampling"):
                    continue
                if norm(p.get(k, {}).get(kk)) != norm(vv):
                    raise Violation("%s(%s[%s]=%r): get_params() reports %r" % (
                        name, k, kk, vv, p.get(k, {}).get(kk)),
                        sig="%s value %s" % (name, k))
        elif k in p and norm(p[k]) != norm(v):
            raise Violation("%s(%s=%r): get_params() reports %r" % (
                name, k, v, p[k]), sig="%s value %s" % (name, k))
    if p.get("class_name") != name:
        raise Violation("%s.get_params() names the class %r" % (
            name, p.get("class_name")), sig=name + " class_name")
    try:
        q = ast.literal_eval(str(p))
    except (ValueError, SyntaxError) as e:
        raise Violation("%s: parameters do not survive str/literal_eval: %s" % (
            name, e), sig=name + " str")
    try:
        j = json.loads(json.dumps(p))
    except (TypeError, ValueError) as e:
        raise Violation("%s: parameters do not survive json: %s" % (name, e),
                        sig=name + " json")
    cfg = {"obj": p, "str": q, "json": j}[case["via"]]
    snap = copy.deepcopy(cfg)
    try:
        b = over.guarded(getattr(sv, cfg["class_name"]), **cfg)
    except over.Raised as e:
        raise Violation("%s cannot be rebuilt from its parameters (%s): %s" % (
            name, case["via"], e), sig=name + " rebuild")
    if cfg != snap:
        raise Violation("%s changed the dictionary it was built from" % name)
    if norm(b.get_params()) != norm(p):
        raise Violation("%s rebuilt from %s has other parameters: %s != %s" % (
            name, case["via"], b.get_params(), p), sig=name + " reparams")
    X, y, _, _ = gen.materialise(case["ds"])
    try:
        oa = over.guarded(a.sample, X, y)
    except over.Raised as e:
        raise Skip("raised " + e.sig)
    try:
        ob = over.guarded(b.sample, X, y)
    except over.Raised as e:
        raise Violation("%s rebuilt from its parameters fails: %s" % (name, e),
                        sig=name + " resample")
    if not same(oa, ob):
        raise Violation("%s rebuilt from its parameters samples differently"
                        % name, sig=name + " resample")
    # sampling leaves the reported parameters alone
    if norm(a.get_params()) != norm(p):
        raise Violation("%s: sampling changed get_params(): %s -> %s" % (
            name, p, a.get_params()), sig=name + " drift")
    return {"nontrivial": len(oa[0]) != len(X), "tags": over.tags(case) +
            ["via:" + case["via"]]}


# simplex dimension fixed by the technique (documented: the constructor warns)
FORCED_DIM = []


def eval_setparams(case):
    """set_params(p) on a default instance == constructing with p"""
    name = case["cls"]
    a = over.guarded(params.build, name, case["params"], case["rs"])
    b = over.guarded(params.build, name, {}, case["rs"] + 1)
    b.set_params(random_state=case["rs"])
    if b.get_params().get("random_state") != case["rs"]:
        raise Violation("%s.set_params(random_state) is not reflected by "
                        "get_params()" % name, sig=name + " set")
    ks = [k for k in case["params"] if k in SETTABLE]
    b.set_params(**{k: params.tup(case["params"][k]) for k in ks})
    for k in ks:
        if norm(b.get_params().get(k)) != norm(case["params"][k]):
            raise Violation("%s.set_params(%s=%r) is not reflected by get_params"
                            "(): %r" % (name, k, case["params"][k],
                                        b.get_params().get(k)), sig=name + " set")
    if set(case["params"]) - set(ks):
        a = over.guarded(params.build, name, {
            k: case["params"][k] for k in ks}, case["rs"])
    X, y, _, _ = gen.materialise(case["ds"])
    try:
        oa = over.guarded(a.sample, X, y)
    except over.Raised as e:
        raise Skip("raised " + e.sig)
    try:
        ob = over.guarded(b.sample, X, y)
    except over.Raised as e:
        raise Violation("%s after set_params fails: %s" % (name, e),
                        sig=name + " set")
    if not same(oa, ob):
        raise Violation("%s: set_params(%s) does not take effect in sampling" % (
            name, {k: case["params"][k] for k in ks}), sig=name + " set")
    return {"nontrivial": bool(ks) and len(oa[0]) != len(X),
            "tags": over.tags(case)}


SETTABLE = ["proportion", "n_neighbors", "k_neighbors"]
# keep these parameters under another name inside (aliases, wrapped instances)
ALIASED = ["ADASYN", "MSYN", "SYMPROD", "polynom_fit_SMOTE_star",
           "polynom_fit_SMOTE_bus", "polynom_fit_SMOTE_poly",
           "polynom_fit_SMOTE_mesh"]


def eval_combos(case):
    """one listed combination"""
    name = case["cls"]
    combos = getattr(sv, name).parameter_combinations()
    c = combos[case["i"] % len(combos)]
    if params.jsonable(c) not in [params.jsonable(c)]:
        raise Violation("?")
    try:
        o = over.guarded(getattr(sv, name), **c)
    except over.Raised as e:
        raise Violation("%s: listed combination %s is rejected: %s" % (
            name, c, e), sig=name + " combo")
    p = o.get_params()
    for k, v in c.items():
        if k not in p or norm(p[k]) != norm(v):
            raise Violation("%s: listed combination %s=%r not reflected by "
                            "get_params(): %r" % (name, k, v, p.get(k)),
                            sig=name + " combo")
    return {"nontrivial": len(c) > 0, "tags": []}


@st.composite
def over_case(draw, name):
    c = draw(over.over_case(name, ds=dict(
        labels=[[0, 1], [1, 0]], max_n_min=14, max_gap=20),
        pk=dict(metric=True, gaussian=True), entry=False))
    c["via"] = draw(st.sampled_from(["obj", "str", "json"]))
    return c


@st.composite
def filter_case(draw, name):
    cls = getattr(noise_removal, name)
    sig = inspect.signature(cls.__init__).parameters
    p = {}
    if "strategy" in sig:
        p["strategy"] = draw(st.sampled_from(["remove_majority", "remove_both"]))
    if "remove" in sig:
        p["remove"] = draw(st.sampled_from(["both", "min", "maj"]))
    if "nn_params" in sig and draw(st.booleans()):
        p["nn_params"] = {"metric": "precomputed", "metric_learning_method":
                          draw(st.sampled_from(["cov", "id"]))}
    p["n_jobs"] = draw(st.sampled_from([1, 2]))
    return {"cls": name, "params": p, "ds": draw(gen.dataset(
        min_n_min=4, min_gap=3, max_n_min=14, kinds=gen.REGULAR)),
        "via": draw(st.sampled_from(["obj", "str", "json"]))}


def eval_filter(case):
    name = case["cls"]
    cls = getattr(noise_removal, name)
    a = cls(**copy.deepcopy(case["params"]))
    p = a.get_params()
    for k, v in case["params"].items():
        if p.get(k) != v:
            raise Violation("%s(%s=%r): get_params() reports %r" % (
                name, k, v, p.get(k)))
    cfg = {"obj": p, "str": ast.literal_eval(str(p)),
           "json": json.loads(json.dumps(p))}[case["via"]]
    b = cls(**cfg)
    if b.get_params() != p:
        raise Violation("%s: rebuilt filter has other parameters" % name)
    X, y, _, _ = gen.materialise(case["ds"])
    try:
        oa = over.guarded(a.remove_noise, X, y)
    except over.Raised as e:
        raise Skip("raised " + e.sig)
    ob = over.guarded(b.remove_noise, X, y)
    if not same(oa, ob):
        raise Violation("%s: rebuilt filter behaves differently" % name)
    c = cls().set_params(**copy.deepcopy(case["params"]))
    if c.get_params() != p or not same(oa, over.guarded(c.remove_noise, X, y)):
        raise Violation("%s: set_params does not take effect" % name)
    return {"nontrivial": len(oa[0]) != len(X), "tags": []}


@st.composite
def mlp_case(draw):
    return {"params": {
        "max_iter": draw(st.sampled_from([1, 2, 5, 20])),
        "activation": draw(st.sampled_from(["relu", "logistic", "tanh"])),
        "hidden_layer_fraction": draw(st.sampled_from(["sqrt", 0.1, 0.5, 1.0, 2.0])),
        "alpha": draw(st.sampled_from([1e-4, 0.1, 1.0])),
        "learning_rate": draw(st.sampled_from(["adaptive", "constant"])),
        "random_state": draw(st.integers(0, 50))},
        "ds": draw(gen.dataset(min_n_min=4, max_n_min=8, max_gap=8,
                               kinds=["gauss"]))}


def eval_mlp(case):
    a = MLPClassifierWrapper(**case["params"])
    p = a.get_params()
    for k, v in case["params"].items():
        if k not in p or p[k] != v:
            raise Violation("MLPClassifierWrapper(%s=%r): get_params() reports "
                            "%r" % (k, v, p.get(k)))
    X, y, _, _ = gen.materialise(case["ds"])
    ref = over.guarded(a.fit, X, y).predict_proba(X)
    for b in (a.copy(), MLPClassifierWrapper(**p)):
        if b is a:
            raise Violation("MLPClassifierWrapper.copy returns itself")
        if not np.array_equal(over.guarded(b.fit, X, y).predict_proba(X), ref):
            raise Violation("MLPClassifierWrapper: a copy behaves differently")
    from sklearn.neural_network import MLPClassifier
    h = case["params"]["hidden_layer_fraction"]
    d = X.shape[1]
    size = max(1, int(np.sqrt(d) if h == "sqrt" else d * h))
    kw = {k: v for k, v in case["params"].items() if k != "hidden_layer_fraction"}
    m = over.guarded(MLPClassifier(hidden_layer_sizes=(size,), **kw).fit, X, y)
    if not np.array_equal(m.predict_proba(X), ref):
        raise Violation("MLPClassifierWrapper differs from an MLPClassifier with "
                        "%d hidden units and the same parameters" % size)
    return {"tags": []}


def tasks(tier):
    base = 60 if tier == "quick" else 800
    t = []
    for n in groups.ALL:
        t.append(Task(n, lambda n=n: over_case(n), eval_over,
                      over.n_for(n, base, 5), cost=params.SLOW.get(n, 1)))
        if any(params.accepts(n, k) for k in SETTABLE) and \
                params.SLOW.get(n, 1) < 10 and n not in ALIASED:
            t.append(Task(n + "/set", lambda n=n: over_case(n), eval_setparams,
                          over.n_for(n, base // 3, 5),
                          cost=params.SLOW.get(n, 1)))
        t.append(Task(n + "/combos", lambda n=n: st.fixed_dictionaries(
            {"cls": st.just(n), "i": st.integers(0, 5000)}), eval_combos,
            20 if tier == "quick" else 200, cost=0.1))
    for n in FILTERS:
        t.append(Task("filter/" + n, lambda n=n: filter_case(n), eval_filter, base))
    t.append(Task("mlp", mlp_case, eval_mlp, base))
    return t


RUNNER = Runner(
    "C09", "",
    "one case = class x parameters x dataset (round trip via the dictionary, "
    "its str or its json form), or class x listed combination; non-trivial = "
    "distinct case whose sampling changed the data (a combination with at least "
    "one parameter)",
    ["a parameter that is None and a missing parameter count as equal",
     "set_params is judged for proportion, n_neighbors and k_neighbors"], tasks)
