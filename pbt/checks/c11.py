import numpy as np
from hypothesis import strategies as st
from smote_variants import config
from smote_variants.base import (NearestNeighborsWithMetricTensor,
                                 pairwise_distances_mahalanobis,
                                 distances_mahalanobis, MetricTensor)
from smote_variants.base import _metrictensor as MT
from .. import over
from ..core import Task, Runner, Violation, Skip


@st.composite
def case_of(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)),
            "n": draw(st.sampled_from([1, 2, 3, 5, 8, 13, 21])),
            "m": draw(st.sampled_from([1, 2, 3, 5, 9, 17])),
            "d": draw(st.integers(1, 6)),
            "kind": draw(st.sampled_from(["gauss", "grid", "dup", "offset",
                                          "same", "tiny", "int"])),
            "tensor": draw(st.sampled_from(["none", "id", "diag", "full",
                                            "singular", "cov", "near_id",
                                            "scaled", "intdiag"])),
            "k": draw(st.integers(1, 9)),
            "rq": draw(st.sampled_from([0.0, 0.1, 0.3, 0.6, 1.0])),
            "chunk": draw(st.sampled_from([None, 1, 2, 7, 30, 100, 1000])),
            "optimized": draw(st.booleans())}


def points(case):
    r = np.random.RandomState(case["seed"])
    n, m, d = case["n"], case["m"], case["d"]
    Z = r.normal(size=(n + m, d))
    kind = case["kind"]
    if kind == "grid":
        Z = np.round(Z)
    elif kind == "dup":
        Z = Z[r.randint(0, max(1, (n + m) // 3), n + m)]
    elif kind == "offset":
        Z = Z + 1000.0
    elif kind == "same":
        Z[:] = Z[0]
    elif kind == "tiny":
        Z = Z * 1e-4
    elif kind == "int":
        Z = np.round(Z * 3).astype(int)
    d0 = case["tensor"]
    T = None
    if d0 == "id":
        T = np.eye(d)
    elif d0 == "diag":
        T = np.diag(r.random_sample(d) * 5)
    elif d0 == "full":
        A = r.normal(size=(d, d))
        T = A @ A.T
    elif d0 == "singular":
        A = r.normal(size=(d, max(1, d - 1)))
        T = A @ A.T
        if d == 1:
            T = np.zeros((1, 1))
    elif d0 == "cov":
        A = r.normal(size=(3 * d + 2, d))
        T = np.linalg.inv(np.atleast_2d(np.cov(A.T)) + 1e-3 * np.eye(d))
    elif d0 == "near_id":
        T = np.eye(d) + np.diag(r.random_sample(d)) * 0.02
    elif d0 == "intdiag":
        T = np.diag(r.choice([1.0, 4.0, 9.0], d))
    elif d0 == "scaled":
        T = np.eye(d) * 4.0
    return Z[:n], Z[n:], T


def brute(X, Y, T):
    T = np.eye(X.shape[1]) if T is None else T
    out = np.zeros((len(X), len(Y)))
    for i in range(len(X)):
        for j in range(len(Y)):
            v = X[i].astype(float) - Y[j].astype(float)
            out[i, j] = np.sqrt(max(0.0, float(v @ T @ v)))
    return out


def tol_of(D, X, T):
    s = 1.0 if T is None else max(1.0, np.sqrt(np.abs(T).max()))
    return 1e-6 * s * max(np.abs(X).max(), 1e-12) * 1e-1 + 1e-7 * D.max()


def evaluate(case):
    X, Y, T = points(case)
    D = brute(X, Y, T)
    tol = tol_of(D, np.vstack([X, Y]), T)
    old = config.distance_matrix_max_memory_chunk()
    if case["chunk"] is not None:
        config.distance_matrix_max_memory_chunk(case["chunk"])
    try:
        X0, Y0 = X.copy(), Y.copy()
        try:
            P = over.guarded(pairwise_distances_mahalanobis, X, Y=Y, tensor=T,
                             optimized=case["optimized"])
        except over.Raised as e:
            raise Violation("pairwise_distances_mahalanobis: %s" % e)
        close(P, D, tol, "pairwise_distances_mahalanobis")
        S = over.guarded(pairwise_distances_mahalanobis, X, tensor=T)
        close(S, brute(X, X, T), tol, "pairwise_distances_mahalanobis(X)")
        k = min(len(X), len(Y))
        R = over.guarded(distances_mahalanobis, X[:k], Y[:k], T)
        close(R, np.diag(D[:k, :k]), tol, "distances_mahalanobis")
        nbrs(case, X, Y, T, D, tol)
        if not (np.array_equal(X, X0) and np.array_equal(Y, Y0)):
            raise Violation("the query modified its input")
    finally:
        config.distance_matrix_max_memory_chunk(old)
    return {"nontrivial": len(X) > 1 and len(Y) > 1 and case["d"] > 1,
            "tags": ["tensor:" + case["tensor"], "kind:" + case["kind"],
                     "chunk:%s" % case["chunk"]]}


def close(A, B, tol, what):
    A = np.asarray(A)
    if A.shape != B.shape:
        raise Violation("%s: shape %s instead of %s" % (what, A.shape, B.shape))
    if not np.all(np.isfinite(A)):
        raise Violation("%s: non-finite distance" % what, sig="nan")
    # a tensor within the package's own tolerance of the identity is treated as
    # the identity
    bad = np.abs(A - B) > tol + 1e-4 * B * 0 + 1e-5 * B
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise Violation("%s: distance %s is %r, by definition %r" % (
            what, i, float(A[i]), float(B[i])))


def nbrs(case, X, Y, T, D, tol):
    """neighbours of the rows of X among the rows of Y"""
    kw = {} if T is None else {"metric": "precomputed", "metric_tensor": T}
    k = min(case["k"], len(Y))
    nn = NearestNeighborsWithMetricTensor(n_neighbors=k, **kw).fit(Y)
    try:
        dist, ind = over.guarded(nn.kneighbors, X)
        ind2 = over.guarded(nn.kneighbors, X, return_distance=False)
        k2 = max(1, k - 1)
        dist3, ind3 = over.guarded(nn.kneighbors, X, n_neighbors=k2)
    except over.Raised as e:
        raise Violation("kneighbors: %s" % e)
    t = tol + 1e-5 * D.max()
    for d_, i_, kk in ((dist, ind, k), (dist3, ind3, k2)):
        if d_.shape != (len(X), kk) or i_.shape != (len(X), kk):
            raise Violation("kneighbors: shapes %s %s for k=%d" % (
                d_.shape, i_.shape, kk))
        for r in range(len(X)):
            if len(set(i_[r].tolist())) != kk:
                raise Violation("kneighbors: repeated index %s" % i_[r].tolist())
            if np.any(np.abs(d_[r] - D[r, i_[r]]) > t):
                raise Violation("kneighbors: distances do not belong to indices")
            if np.any(np.diff(d_[r]) < -t):
                raise Violation("kneighbors: distances not ascending: %s" %
                                d_[r].tolist())
            want = np.sort(D[r])[:kk]
            if np.any(np.abs(np.sort(D[r, i_[r]]) - want) > t):
                raise Violation("kneighbors: row %d gets neighbours at %s, the "
                                "nearest are at %s" % (
                                    r, np.sort(D[r, i_[r]]).tolist(),
                                    want.tolist()))
    if not np.array_equal(ind, ind2):
        raise Violation("kneighbors without distances returns other indices")
    border(case, X, Y, T, nn)
    # radius queries; the radius keeps clear of every distance
    vals = np.unique(np.concatenate([[0.0], D.ravel()]))
    q = vals[int(case["rq"] * (len(vals) - 1))]
    up = vals[vals > q + 10 * t]
    if len(up):
        radius = (vals[vals < up[0]].max() + up[0]) / 2
        if up[0] - vals[vals < up[0]].max() < 10 * t:
            return
    else:
        radius = q + 1 + 100 * t
    try:
        rd, ri = over.guarded(nn.radius_neighbors, X, radius)
        ri2 = over.guarded(nn.radius_neighbors, X, radius, return_distance=False)
    except over.Raised as e:
        raise Violation("radius_neighbors: %s" % e)
    if len(ri) != len(X) or len(rd) != len(X):
        raise Violation("radius_neighbors: %d rows for %d queries" % (
            len(ri), len(X)))
    for r in range(len(X)):
        want = set(np.where(D[r] <= radius)[0].tolist())
        have = [int(v) for v in ri[r]]
        if set(have) != want or len(have) != len(want):
            raise Violation("radius_neighbors: row %d radius %r gives %s, "
                            "brute force %s" % (r, radius, sorted(have),
                                                sorted(want)))
        if len(have) and np.any(np.abs(np.asarray(rd[r], dtype=float)
                                       - D[r, have]) > t):
            raise Violation("radius_neighbors: distances do not belong to the "
                            "indices")
        if sorted(int(v) for v in ri2[r]) != sorted(have):
            raise Violation("radius_neighbors without distances differs")


def border(case, X, Y, T, nn):
    """integer points and an integer tensor: the distances are exact, so a
    radius equal to one of them settles whether the border belongs to the
    ball (it does, as in scikit-learn)"""
    if case["kind"] not in ("grid", "int") or \
            case["tensor"] not in ("none", "id", "scaled", "intdiag"):
        return
    X, Y = X.astype(float), Y.astype(float)
    W = np.ones(X.shape[1]) if T is None else np.diag(T)
    D2 = ((X[:, None] - Y[None]) ** 2 * W).sum(axis=2)
    sq = np.unique(D2)
    sq = sq[(np.sqrt(sq) == np.floor(np.sqrt(sq))) & (sq > 0)]
    if len(sq) == 0:
        return
    radius = float(np.sqrt(sq[int(case["rq"] * (len(sq) - 1))]))
    try:
        ri = over.guarded(nn.radius_neighbors, X, radius, return_distance=False)
    except over.Raised as e:
        raise Violation("radius_neighbors: %s" % e)
    for r in range(len(X)):
        want = np.where(D2[r] <= radius ** 2)[0].tolist()
        if sorted(int(v) for v in ri[r]) != want:
            raise Violation("radius_neighbors: row %d radius %r (a distance "
                            "that occurs) gives %s, brute force %s" % (
                                r, radius, sorted(int(v) for v in ri[r]), want))


def tasks(tier):
    n = 700 if tier == "quick" else 9000
    return [Task("nn#%d" % i, case_of, evaluate, n) for i in range(8)]


RUNNER = Runner(
    "C11", "",
    "one case = query points x fitted points x metric tensor x k x radius x "
    "memory chunk; non-trivial = distinct case with more than one point on both "
    "sides and more than one feature",
    ["comparison tolerance 1e-5 relative (tensors within numpy.allclose of the "
     "identity are documented to be treated as the identity)",
     "radii keep clear of all distances so that rounding cannot decide, except "
     "for integer points and tensors, where distances are exact",
     "k does not exceed the number of fitted points"], tasks)
