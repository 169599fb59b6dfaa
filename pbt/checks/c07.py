import numpy as np
from scipy.optimize import nnls
from hypothesis import strategies as st
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip

TOL = 1e-6


def box_excess(S, A):
    """largest excess over the bounding box of A, relative to the data scale"""
    lo, hi = A.min(axis=0), A.max(axis=0)
    sc = max((hi - lo).max(), np.abs(A).max() * 1e-3, 1e-300)
    ex = np.maximum(np.maximum(lo - S, S - hi), 0)
    return float(ex.max()) / sc if len(S) else 0.0


def hull_dist(x, A):
    c = A.mean(axis=0)
    B = A - c
    sc = max(np.abs(B).max(), np.abs(A).max() * 1e-6, 1e-300)
    M = np.vstack([(B / sc).T, np.ones(len(A))])
    rhs = np.concatenate([(x - c) / sc, [1.0]])
    try:
        return float(nnls(M, rhs, maxiter=2000)[1])
    except RuntimeError:
        return 0.0      # no verdict from the solver


def segment_dist(x, A, B=None):
    """distance of x from the nearest segment between a row of A and a row of B
    (relative)"""
    B = A if B is None else B
    sc = max(np.abs(A - A.mean(axis=0)).max(), np.abs(A).max() * 1e-6, 1e-300)
    P = A[:, None, :]
    D = B[None, :, :] - P
    n2 = np.sum(D * D, axis=2)
    t = np.sum((x - P) * D, axis=2) / np.where(n2 > 0, n2, 1)
    t = np.clip(t, 0, 1)
    R = x - (P + t[:, :, None] * D)
    return float(np.sqrt(np.min(np.sum(R * R, axis=2)))) / sc


def allowed_pairs(A, k):
    """boolean matrix: fewer than k other samples are clearly closer to i
    than j is"""
    D = np.sqrt(np.sum((A[:, None, :] - A[None, :, :]) ** 2, axis=2))
    tol = 1e-7 * max(D.max(), 1e-300) + 1e-9 * np.abs(A).max()
    n = len(A)
    ok = np.zeros((n, n), bool)
    for i in range(n):
        for j in range(n):
            closer = np.sum(D[i] < D[i, j] - tol) - 1
            ok[i, j] = closer < k or i == j
    return ok


def pair_dist(x, A, ok):
    sc = max(np.abs(A - A.mean(axis=0)).max(), np.abs(A).max() * 1e-6, 1e-300)
    i, j = np.where(ok)
    P, D = A[i], A[j] - A[i]
    n2 = np.sum(D * D, axis=1)
    t = np.clip(np.sum((x - P) * D, axis=1) / np.where(n2 > 0, n2, 1), 0, 1)
    R = x - (P + t[:, None] * D)
    return float(np.sqrt(np.min(np.sum(R * R, axis=1)))) / sc


def new_rows(case, X, y, Xs, ys, mnl):
    """rows of the output labelled minority that are not rows of the input"""
    if case["cls"] in groups.ADDITIVE:
        return Xs[len(X):]
    old = {r.tobytes() for r in (np.ascontiguousarray(X, dtype=float) + 0.0)}
    m = [i for i in np.where(ys == mnl)[0]
         if (np.ascontiguousarray(Xs[i], dtype=float) + 0.0).tobytes() not in old]
    return Xs[m]


def evaluate(case):
    name = case["cls"]
    r = over.run_or_skip(case)
    X, y, mnl = r["X"], r["y"], r["mnl"]
    Xs, ys = over.unpack(case, r)
    S = new_rows(case, X, y, Xs, ys, mnl)
    if name == "E_SMOTE":
        X = over.guarded(r["obj"].preprocessing_transform, X)
    if S.shape[1] != X.shape[1]:
        raise Skip("projected")
    A = X[y == mnl]
    tags = over.tags(case)
    if len(S) == 0:
        return {"nontrivial": False, "tags": tags}
    if name in groups.BOX_ALL:
        e = box_excess(S, X)
        if e > TOL:
            raise Violation("%s: a generated sample leaves the bounding box of "
                            "the data by %.3g of its size" % (name, e),
                            sig=name + " box")
        return {"nontrivial": True, "tags": tags + ["box"]}
    e = box_excess(S, A)
    if e > TOL:
        raise Violation("%s: a generated sample leaves the bounding box of the "
                        "minority class by %.3g of its size" % (name, e),
                        sig=name + " minbox")
    pick = S if len(S) <= 24 else S[np.linspace(0, len(S) - 1, 24).astype(int)]
    if name in groups.HULL_MIN:
        for x in pick:
            h = hull_dist(x, A)
            if h > TOL:
                raise Violation("%s: generated sample %s is outside the convex "
                                "hull of the minority class (distance %.3g)" % (
                                    name, x.tolist(), h), sig=name + " hull")
    seg = name in groups.SEGMENT and "ss_params" not in case["params"]
    if seg:
        for x in pick:
            h = segment_dist(x, A)
            if h > TOL:
                raise Violation("%s: generated sample %s is on no segment "
                                "between two minority samples (distance %.3g)"
                                % (name, x.tolist(), h), sig=name + " segment")
        tags.append("segment")
    if seg and name in groups.KNN_SEGMENT and "nn_params" not in case["params"]:
        k = r["obj"].get_params().get(groups.KNN_SEGMENT[name])
        B = allowed_pairs(A, k)
        for x in pick:
            h = pair_dist(x, A, B)
            if h > TOL:
                raise Violation("%s: generated sample %s is on no segment "
                                "between a minority sample and one of its %d "
                                "nearest minority neighbors (distance %.3g)" % (
                                    name, x.tolist(), k, h), sig=name + " knn")
        tags.append("knn")
    return {"nontrivial": True, "tags": tags}


def tasks(tier):
    base = 170 if tier == "quick" else 2200
    out = []
    for n in groups.HULL_MIN + groups.BOX_MIN + groups.BOX_ALL:
        out.append(Task(n, lambda n=n: over.over_case(
            n, ds=dict(labels=[[0, 1], [1, 0], [-1, 1]], min_n_min=2),
            pk=dict(metric=True)), evaluate, over.n_for(n, base),
            cost=params.SLOW.get(n, 1)))
    return out


RUNNER = Runner(
    "C07", "",
    "one case = technique x parameters x dataset; non-trivial = distinct case "
    "with at least one generated row",
    ["membership is judged with a relative tolerance of 1e-6; at most 24 "
     "generated rows per case are put through the hull test (all through the "
     "bounding box)"], tasks)
