from collections import Counter
import numpy as np
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation


def keyrows(X):
    # float64 views; -0.0 and 0.0 are the same value
    return [tuple((np.asarray(r, dtype=float) + 0.0).tolist()) for r in X]


def snapped(rows, X):
    """the rows with those equal to an input row up to the rounding of an
    internal normalisation replaced by that input row"""
    X = np.asarray(X)
    rel = 1e-9 if X.dtype != np.float32 else 1e-5
    X = X.astype(float)
    rows = np.asarray(rows, dtype=float).copy()
    tol = rel * np.max(np.abs(X), axis=0) + 1e-300
    for i, r in enumerate(rows):
        d = np.abs(X - r)
        ok = np.where(np.all(d <= tol, axis=1))[0]
        if len(ok) > 0:
            rows[i] = X[ok[np.argmin(np.sum(d[ok] / tol, axis=1))]]
    return rows


def is_subsequence(a, b):
    it = iter(b)
    return all(any(x == z for z in it) for x in a)


def evaluate(case):
    name = case["cls"]
    r = over.run_or_skip(case)
    X, y, mnl, mjl = r["X"], r["y"], r["mnl"], r["mjl"]
    Xs, ys = over.unpack(case, r)
    if Xs.shape[1] != X.shape[1]:
        raise Violation("%s changed the number of features" % name)
    Xs = snapped(Xs, X)
    maj_in, maj_out = keyrows(X[y == mjl]), keyrows(Xs[ys == mjl])
    min_in, min_out = keyrows(X[y == mnl]), keyrows(Xs[ys == mnl])
    cmi, cmo = Counter(maj_in), Counter(maj_out)
    cni, cno = Counter(min_in), Counter(min_out)
    if name in groups.MAJ_SELECT or name in groups.MAJ_SELECT_UNORDERED:
        bad = [k for k in cmo if cmo[k] > cmi[k]]
        if bad:
            raise Violation("%s: majority row %s occurs %d times in the output, "
                            "%d times in the input" % (
                                name, list(bad[0]), cmo[bad[0]], cmi[bad[0]]))
    if name in groups.MAJ_SELECT and not is_subsequence(maj_out, maj_in):
        raise Violation("%s: kept majority rows are not in input order" % name)
    if name in groups.MIN_KEPT:
        bad = [k for k in cni if cno[k] < cni[k]]
        if bad:
            raise Violation("%s: original minority row %s missing from the "
                            "output" % (name, list(bad[0])))
    if name in groups.MAJ_KEPT:
        bad = [k for k in cmi if cmo[k] < cmi[k]]
        if bad:
            raise Violation("%s: original majority row %s missing from the "
                            "output" % (name, list(bad[0])))
    if name in groups.ROWS_ONLY:
        rows = set(maj_in) | set(min_in)
        bad = [k for k in maj_out + min_out if k not in rows]
        if bad:
            raise Violation("%s: output row %s is not an input row" % (
                name, list(bad[0])))
    changed = len(Xs) != len(X) or not np.array_equal(r["out"][0], X) \
        or not np.array_equal(ys, y)
    t = over.tags(case)
    if cmo != cmi:
        t.append("majority changed")
    if any(cno[k] < cni[k] for k in cni):
        t.append("minority filtered")
    return {"nontrivial": changed, "tags": t}


NAMES = sorted(set(groups.MAJ_SELECT + groups.MAJ_SELECT_UNORDERED +
                   groups.MIN_KEPT + groups.MAJ_KEPT + groups.ROWS_ONLY))


def tasks(tier):
    base = 420 if tier == "quick" else 5000
    out = []
    for name in NAMES:
        out.append(Task(name, lambda name=name: over.over_case(
            name, ds=dict(labels=gen.LABELS, forms=gen.FORMS),
            pk=dict(metric=True)),
            evaluate, over.n_for(name, base), cost=params.SLOW.get(name, 1)))
    return out


RUNNER = Runner(
    "C02", "",
    "one case = technique x parameters x dataset spec; non-trivial = distinct "
    "case whose output differs from the input",
    ["row identity is exact equality of float64 rows"], tasks)
