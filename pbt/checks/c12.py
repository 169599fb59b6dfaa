import numpy as np
from hypothesis import strategies as st
from smote_variants.base import (MetricTensor, fix_pd_matrix, reverse_matrix,
                                 construct_tensor, psd_mean,
                                 ClassifierImpliedDissimilarityMatrix,
                                 RemoveCorrelatedColumns,
                                 ClosestNeighborsInClasses,
                                 estimate_mutual_information)
from smote_variants.base import _metrictensor as MT
from .. import gen, over
from ..core import Task, Runner, Violation, Skip

METHODS = ["cov", "cov_min", "MI_weighted", "id", "rf"]


@st.composite
def tensor_case(draw, method):
    return {"method": method,
            "ds": draw(gen.dataset(min_n_min=2 if method == "cov_min" else 1,
                                   max_n_min=14, max_gap=20,
                                   labels=[[0, 1]] if method == "cov_min"
                                   else [[0, 1], [1, 0], [3, 7]]))}


def psd(T, what, floor=None, scale=None):
    d = T.shape[0]
    if T.shape != (d, d):
        raise Violation("%s: shape %s" % (what, T.shape))
    if not np.all(np.isfinite(T)):
        raise Violation("%s: non-finite values" % what, sig=what + " finite")
    s = max(np.abs(T).max(), 1e-300)
    if np.abs(T - T.T).max() > 1e-8 * s:
        raise Violation("%s: not symmetric" % what, sig=what + " sym")
    ev = np.linalg.eigvalsh((T + T.T) / 2)
    if ev.min() < -1e-8 * s:
        raise Violation("%s: eigenvalue %r" % (what, float(ev.min())),
                        sig=what + " psd")
    return ev


def eval_tensor(case):
    X, y, mnl, mjl = gen.materialise(case["ds"])
    m = case["method"]
    if len(np.unique(X, axis=0)) < 2:
        raise Skip("all samples coincide")
    if m == "MI_weighted" and len(X) < 6:
        raise Skip("too few samples for 3-nearest-neighbor mutual information")
    X0, y0 = X.copy(), y.copy()
    np.random.seed(1)
    try:
        T = over.guarded(MetricTensor(metric_learning_method=m).tensor, X, y)
        np.random.seed(2)
        T2 = over.guarded(MetricTensor(metric_learning_method=m).tensor, X, y)
    except over.Raised as e:
        raise Violation("MetricTensor(%s): %s" % (m, e), sig=m + " " + e.sig)
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("MetricTensor(%s) modified its input" % m)
    d = X.shape[1]
    if T.shape != (d, d):
        raise Violation("MetricTensor(%s): shape %s for %d features" % (
            m, T.shape, d))
    if m in ("cov", "cov_min") and np.abs(X).max() > 1e4:
        # the covariance spans more than double precision can invert
        if not np.all(np.isfinite(T)):
            raise Violation("MetricTensor(%s): non-finite values" % m)
    else:
        psd(T, "MetricTensor(%s)" % m)
    if not np.array_equal(T, T2):
        raise Violation("MetricTensor(%s) is not deterministic" % m)
    if m == "id" and not np.array_equal(T, np.eye(d)):
        raise Violation("MetricTensor(id) is not the identity")
    if m in ("cov", "cov_min"):
        A = X if m == "cov" else X[y == 1]
        C = np.zeros((d, d))
        mu = A.mean(axis=0)
        for row in A:
            C += np.outer(row - mu, row - mu)
        C /= len(A) - 1
        ev, W = np.linalg.eigh(C)
        sep = np.abs(ev - 1e-4).min()
        if sep > 1e-9 * max(1, ev.max()) and ev.max() < 1e8:
            want = W @ np.diag(1 / np.maximum(ev, 1e-4)) @ W.T
            if not np.allclose(T, want, rtol=1e-4,
                               atol=1e-5 * np.abs(want).max()):
                raise Violation("MetricTensor(%s) differs from the inverse of "
                                "the repaired covariance" % m, sig=m + " value")
    if m == "MI_weighted":
        if np.any(T - np.diag(np.diag(T))):
            raise Violation("MI_weighted tensor is not diagonal")
        if abs(np.trace(T) - d) > 1e-6 * d:
            raise Violation("MI_weighted weights are not normalised to mean 1: "
                            "%s" % np.diag(T).tolist())
    return {"nontrivial": d > 1, "tags": ["method:" + m,
                                          "kind:" + case["ds"]["kind"]]}


@st.composite
def mat_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "d": draw(st.integers(1, 7)),
            "kind": draw(st.sampled_from(["indef", "pd", "rank1", "zero", "neg",
                                          "diag", "illcond"])),
            "eps": draw(st.sampled_from([1e-4, 1e-4, 1e-2, 1e-6])),
            "k": draw(st.integers(1, 4))}


def mat(case, r):
    d = case["d"]
    A = r.normal(size=(d, d))
    k = case["kind"]
    if k == "indef":
        return (A + A.T) / 2
    if k == "pd":
        return A @ A.T + 0.1 * np.eye(d)
    if k == "rank1":
        return np.outer(A[0], A[0])
    if k == "zero":
        return np.zeros((d, d))
    if k == "neg":
        return -(A @ A.T)
    if k == "diag":
        return np.diag(r.normal(size=d))
    q, _ = np.linalg.qr(A)
    return q @ np.diag(10.0 ** r.uniform(-8, 3, size=d)) @ q.T


def eval_matrix(case):
    r = np.random.RandomState(case["seed"])
    M = mat(case, r)
    M = (M + M.T) / 2
    M0 = M.copy()
    eps = case["eps"]
    F = over.guarded(fix_pd_matrix, M, eps)
    if not np.array_equal(M, M0):
        raise Violation("fix_pd_matrix modified its argument")
    s = max(np.abs(M).max(), eps)
    ev = psd(F, "fix_pd_matrix")
    if ev.min() < eps - 1e-9 * s:
        raise Violation("fix_pd_matrix(eps=%g): smallest eigenvalue %r" % (
            eps, float(ev.min())))
    e0, W = np.linalg.eigh(M)
    if e0.min() > eps and not np.allclose(F, M, atol=1e-9 * s):
        raise Violation("fix_pd_matrix changed a matrix whose eigenvalues are all "
                        "above the floor")
    want = W @ np.diag(np.where(e0 <= eps, eps, e0)) @ W.T
    if np.abs(e0 - eps).min() > 1e-9 * s and not np.allclose(
            F, want, atol=1e-8 * s):
        raise Violation("fix_pd_matrix does more than lifting the eigenvalues "
                        "below the floor")
    Ms = [mat(case, r) for _ in range(case["k"])]
    Ms = [(m + m.T) / 2 for m in Ms]
    P = over.guarded(psd_mean, Ms)
    if not np.allclose(P, fix_pd_matrix(np.sum(Ms, axis=0) / len(Ms)),
                       atol=1e-9 * s):
        raise Violation("psd_mean is not the repaired mean")
    if case["kind"] in ("pd", "indef") and case["d"] > 1:
        R = over.guarded(reverse_matrix, M)
        a, b = np.linalg.eigvalsh(M), np.linalg.eigvalsh(R)
        if np.abs(R - R.T).max() > 1e-8 * s or not np.allclose(
                a, b, atol=1e-8 * s):
            raise Violation("reverse_matrix changed the spectrum")
        # eigenvectors keep, their eigenvalues are assigned in reverse order
        want = W @ np.diag(e0[::-1]) @ W.T
        if np.diff(e0).min() > 1e-6 * s and not np.allclose(
                R, want, atol=1e-7 * s):
            raise Violation("reverse_matrix does not reverse the eigenvalues")
    return {"nontrivial": case["d"] > 1 and case["kind"] != "zero",
            "tags": ["kind:" + case["kind"]]}


@st.composite
def rf_case(draw):
    return {"ds": draw(gen.dataset(min_n_min=2, max_n_min=10, max_gap=14,
                                   max_d=4)),
            "trees": draw(st.sampled_from([1, 3, 10]))}


def eval_rf(case):
    X, y, _, _ = gen.materialise(case["ds"])
    clf = ClassifierImpliedDissimilarityMatrix(classifier_params={
        "n_estimators": case["trees"], "min_samples_leaf": 2, "random_state": 5})
    over.guarded(clf.fit, X, y)
    D = over.guarded(clf.dissimilarity_matrix, X)
    if D.shape != (len(X), len(X)):
        raise Violation("dissimilarity matrix of shape %s" % (D.shape,))
    if np.any(D != D.T) or np.any(np.diag(D) != 0) or D.min() < 0 or D.max() > 1:
        raise Violation("dissimilarity matrix is not a symmetric matrix in [0,1] "
                        "with zero diagonal")
    leaves = clf.classifier_obj.apply(X)
    want = np.mean(leaves[:, None, :] != leaves[None, :, :], axis=2)
    if not np.allclose(D, want):
        raise Violation("dissimilarity is not the share of trees separating the "
                        "samples")
    m = min(4, len(X))
    K = over.guarded(clf.transform_kneighbors, X[:m])
    if not np.allclose(K, want[:m]):
        raise Violation("transform_kneighbors differs from the dissimilarity of "
                        "the same rows")
    if len(np.unique(X, axis=0)) < 2:
        raise Skip("all samples coincide")
    T, score = over.guarded(construct_tensor, X, D)
    psd(T, "construct_tensor")
    if T.shape != (X.shape[1], X.shape[1]):
        raise Violation("construct_tensor: shape %s" % (T.shape,))
    return {"tags": ["rf"]}


@st.composite
def euclid_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "d": draw(st.integers(1, 3)),
            "n": draw(st.integers(12, 20))}


def eval_construct(case):
    """dissimilarities generated by a known metric give that metric back"""
    r = np.random.RandomState(case["seed"])
    d = case["d"]
    A = r.normal(size=(d, d))
    M = A @ A.T + 0.3 * np.eye(d)
    X = r.normal(size=(case["n"], d))
    D = np.sqrt(np.einsum("ijk,kl,ijl->ij", X[:, None] - X, M, X[:, None] - X))
    T, score = over.guarded(construct_tensor, X, D)
    if not np.allclose(T, M, atol=1e-6 * np.abs(M).max()):
        raise Violation("construct_tensor does not recover the metric that "
                        "generated the dissimilarities: %s instead of %s" % (
                            T.tolist(), M.tolist()))
    return {"tags": ["recover"]}


@st.composite
def corr_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "d": draw(st.integers(1, 6)),
            "thr": draw(st.sampled_from([0.5, 0.9, 0.99])),
            "dups": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)),
                                  max_size=3))}


def eval_corr(case):
    r = np.random.RandomState(case["seed"])
    X = r.normal(size=(15, case["d"]))
    for a, b in case["dups"]:
        if a < case["d"] and b < case["d"] and a != b:
            X[:, b] = X[:, a] * 2 - 1
    rc = RemoveCorrelatedColumns(threshold=case["thr"])
    out = over.guarded(lambda: rc.fit(X).transform(X))
    if out.shape[1] == 0:
        raise Violation("RemoveCorrelatedColumns removed every column")
    C = np.abs(np.corrcoef(out.T)) if out.shape[1] > 1 else np.eye(1)
    C = C - np.eye(len(C))
    if C.max() > case["thr"] + 1e-12:
        raise Violation("columns correlated by %.4f survive threshold %.2f" % (
            C.max(), case["thr"]))
    full = np.atleast_2d(np.abs(np.corrcoef(X.T)))
    keep = [any(np.array_equal(X[:, j], out[:, i]) for i in range(out.shape[1]))
            for j in range(case["d"])]
    for j in range(case["d"]):
        if not keep[j] and not any(full[j, i] > case["thr"]
                                   for i in range(case["d"]) if i != j):
            raise Violation("column %d correlates with none above the threshold "
                            "but is removed" % j)
    new = r.normal(size=(4, case["d"]))
    got = over.guarded(rc.transform, new)
    if np.unique(X, axis=1).shape[1] == case["d"] and not np.array_equal(
            got, new[:, np.array(keep)]):
        raise Violation("other columns are dropped from new data",
                        sig="corr new")
    return {"nontrivial": not all(keep), "tags": ["corr"]}


@st.composite
def border_case(draw):
    return {"k": draw(st.integers(1, 8)),
            "ds": draw(gen.dataset(min_n_min=5, max_n_min=14, max_gap=20,
                                   kinds=gen.REGULAR,
                                   labels=[[0, 1], [1, 0]]))}


def eval_border(case):
    X, y, _, _ = gen.materialise(case["ds"])
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    srt = np.sort(D, axis=1)
    if np.min(np.diff(srt, axis=1)) <= 1e-9 * max(srt.max(), 1e-300):
        raise Skip("equal distances")
    near = np.argsort(D, axis=1)[:, :case["k"]]
    mask = np.any(y[near] != y[:, None], axis=1)
    X0, y0 = X.copy(), y.copy()
    try:
        out = over.guarded(ClosestNeighborsInClasses(
            n_neighbors=case["k"]).fit_transform, X, y)
    except over.Raised as e:
        raise Violation("border points: %s" % e, sig="border " + e.sig)
    Xb, yb = out
    if len(Xb) != len(yb):
        raise Violation("border points: %d rows, %d labels" % (
            len(Xb), len(yb)))
    key = lambda X, y: sorted(map(tuple, np.column_stack([y, X]).tolist()))  # noqa
    if key(X[mask], y[mask]) != key(Xb, yb):
        raise Violation("border points with k=%d: %d samples (labels %s) "
                        "instead of %d" % (case["k"], len(Xb), list(yb),
                                           int(mask.sum())), sig="border")
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("border points: input modified")
    return {"nontrivial": 0 < mask.sum() < len(X), "tags": ["border"]}


def tasks(tier):
    k = 1 if tier == "quick" else 10
    out = [Task("tensor/" + m, lambda m=m: tensor_case(m), eval_tensor,
                {"rf": 60, "MI_weighted": 120}.get(m, 500) * k,
                cost={"rf": 30, "MI_weighted": 8}.get(m, 1)) for m in METHODS]
    out += [Task("matrix", mat_case, eval_matrix, 1500 * k),
            Task("rf", rf_case, eval_rf, 250 * k, cost=5),
            Task("construct", euclid_case, eval_construct, 300 * k),
            Task("border", border_case, eval_border, 300 * k),
            Task("corr", corr_case, eval_corr, 300 * k)]
    return out


RUNNER = Runner(
    "C12", "",
    "one case = dataset x metric learning method, or one symmetric matrix, or "
    "one dissimilarity problem, border selection or correlated column set; non-trivial = distinct case of more than one "
    "dimension",
    ["ITML, LSML, NCA and the means over them are third-party optimisers of "
     "metric-learn and are not judged",
     "cov_min is defined for labels 0/1 and needs two samples labelled 1"], tasks)
