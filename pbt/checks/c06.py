import numpy as np
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation


def evaluate(case):
    name = case["cls"]
    try:
        r = over.run(case)
    except over.Raised as e:
        raise Violation("%s: %s" % (name, e), sig="%s %s" % (name, e.sig))
    X, y = r["X"], r["y"]
    Xs, ys = over.unpack(case, r)
    if len(Xs) == 0:
        raise Violation("%s: empty result" % name, sig=name + " empty")
    if not np.all(np.isfinite(Xs.astype(float))):
        raise Violation("%s: non-finite values in the output" % name,
                        sig=name + " nonfinite")
    if not set(np.unique(ys).tolist()) <= set(np.unique(y).tolist()):
        raise Violation("%s: labels %s not among the input labels" % (
            name, np.unique(ys).tolist()), sig=name + " labels")
    try:
        T = over.guarded(r["obj"].preprocessing_transform, X)
    except over.Raised as e:
        raise Violation("%s preprocessing_transform: %s" % (name, e),
                        sig="%s transform %s" % (name, e.sig))
    if T.shape[0] != X.shape[0] or T.shape[1] != Xs.shape[1]:
        raise Violation("%s: preprocessing_transform gives %s, the resampled "
                        "data has %d features" % (name, T.shape, Xs.shape[1]),
                        sig=name + " transform shape")
    return {"nontrivial": len(Xs) != len(X) or not np.array_equal(ys, y),
            "tags": over.tags(case)}


def tasks(tier):
    base = 190 if tier == "quick" else 2500
    return [Task(name, lambda name=name: over.over_case(
                name, ds=dict(labels=gen.LABELS, forms=gen.FORMS),
                pk=dict(metric=True, gaussian=True)),
            evaluate, over.n_for(name, base), cost=params.SLOW.get(name, 1))
            for name in groups.ALL]


RUNNER = Runner(
    "C06", "",
    "one case = technique x parameters x dataset (18 geometries, eight memory "
    "layouts / dtypes, eight label pairs, any row order) x entry point; "
    "non-trivial = distinct case whose result differs from its input",
    ["the DEAGO technique is driven on 50+ minority samples only (it trains for "
     "5000/n_minority epochs)",
     "at most 22 minority samples, 45 more majority samples, 12 features"],
    tasks)
