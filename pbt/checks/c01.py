import numpy as np
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation

LABELS = gen.LABELS


def evaluate(case):
    r = over.run_or_skip(case)
    X, y = r["X"], r["y"]
    Xs, ys = over.unpack(case, r)
    name, n = case["cls"], len(X)
    if Xs.shape[1] != X.shape[1]:
        raise Violation("%s changed the number of features %d -> %d" % (
            name, X.shape[1], Xs.shape[1]))
    if len(Xs) < n:
        raise Violation("%s dropped rows: %d -> %d" % (name, n, len(Xs)))
    if not np.array_equal(Xs[:n], X):
        i = int(np.where(np.any(Xs[:n] != X, axis=1))[0][0])
        raise Violation("%s: row %d of the output is %s, input row is %s" % (
            name, i, Xs[i].tolist(), X[i].tolist()))
    if not np.array_equal(ys[:n], y):
        raise Violation("%s: labels of the original rows changed" % name)
    if not np.all(ys[n:] == r["mnl"]):
        raise Violation("%s: appended rows have labels %s, minority label is %s"
                        % (name, np.unique(ys[n:]).tolist(), r["mnl"]))
    return {"nontrivial": len(Xs) > n, "tags": over.tags(case) + (
        ["grew"] if len(Xs) > n else ["unchanged"])}


def tasks(tier):
    base = 190 if tier == "quick" else 2500
    out = []
    for name in groups.ADDITIVE:
        out.append(Task(
            name,
            lambda name=name: over.over_case(
                name, ds=dict(labels=LABELS, forms=gen.FORMS),
                pk=dict(metric=True, gaussian=True)),
            evaluate, over.n_for(name, base), cost=params.SLOW.get(name, 1)))
    return out


RUNNER = Runner(
    "C01", "",
    "one case = technique x parameters x dataset spec; non-trivial = distinct "
    "case in which the technique appended at least one row",
    ["datasets up to 22+67 rows, 12 features; expensive techniques run with "
     "reduced iteration counts",
     "calls that raise are judged by C06, here they are counted as not judged"],
    tasks)
