import itertools
import math
from collections import Counter
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom, norm
import smote_variants as sv
from smote_variants import base, config
from smote_variants.base import _base, _scipyport
from smote_variants.base import _simplexsampling as S
from .. import over
from ..core import Task, Runner, Violation

call = over.guarded


def fail_on_raise(fn):
    def inner(case):
        try:
            return fn(case)
        except over.Raised as e:
            raise Violation("%s" % e, sig=e.sig)
    return inner


# --------------------------------------------------------- class statistics
PAIRS = {
    "int": [(0, 1), (1, 0), (-5, 3), (10, 2), (255, 0)],
    "float": [(0.0, 1.0), (2.5, -1.0), (1e9, 0.5)],
    "str": [("neg", "pos"), ("b", "a"), ("1", "10")],
    "bool": [(False, True), (True, False)],
    "uint8": [(0, 1), (255, 3), (3, 200)],
    "int8": [(-128, 127), (1, -1)],
}


@st.composite
def stat_case(draw):
    kind = draw(st.sampled_from(sorted(PAIRS)))
    return {"kind": kind, "pair": draw(st.integers(0, 4)),
            "a": draw(st.integers(1, 200)), "b": draw(st.integers(1, 200)),
            "tie": draw(st.integers(0, 5)) == 0,
            "seed": draw(st.integers(0, 99)),
            "prop": draw(st.sampled_from(
                [0.0, 0.1, 0.25, 1 / 3, 0.5, 0.9, 1, 1.0, 1.5, 2, 7.3])),
            "given": draw(st.booleans())}


@fail_on_raise
def eval_stats(case):
    pairs = PAIRS[case["kind"]]
    mj, mn = pairs[case["pair"] % len(pairs)]
    na, nb = case["a"], case["a"] if case["tie"] else case["b"]
    # na samples of label mn, nb of label mj
    y = np.array([mn] * na + [mj] * nb)
    if case["kind"] in ("uint8", "int8"):
        y = y.astype(case["kind"])
    y = y[np.random.RandomState(case["seed"]).permutation(len(y))]
    y0 = y.copy()
    o = sv.SMOTE(proportion=1.0)
    call(o.class_label_statistics, y)
    if na == nb:
        want = (max(mn, mj), min(mn, mj))
    else:
        want = (mn, mj) if na < nb else (mj, mn)
    if (o.min_label, o.maj_label) != want:
        raise Violation("minority/majority label %r/%r, counts %s" % (
            o.min_label, o.maj_label, {mn: na, mj: nb}))
    got = {k: int(v) for k, v in o.class_stats.items()}
    if got != {mn: na, mj: nb}:
        raise Violation("class statistics %s of %s" % (got, {mn: na, mj: nb}))
    if not np.array_equal(y, y0):
        raise Violation("the labels were modified")
    lo, hi = min(na, nb), max(na, nb)
    p = case["prop"]
    n = call(o.det_n_to_sample, p, *((hi, lo) if case["given"] else ()))
    # truncation of the product (floating point as well as exact are right)
    ok = {max(0, int((hi - lo) * p)),
          max(0, math.floor((hi - lo) * Fraction(p)))}
    if n not in ok:
        raise Violation("%s samples to generate for proportion %s of %d - %d" % (
            n, p, hi, lo))
    back = call(o.det_n_to_sample, p, lo, hi)
    if back != 0:
        raise Violation("%s samples to generate although the minority class is "
                        "the larger one" % back)
    return {"nontrivial": na != nb, "tags": ["labels:" + case["kind"]]}


# ----------------------------------------------------------- small helpers
VAL = st.sampled_from([0.0, 0.0, 1.0, 0.5, 2.0, 3.25, 1e-9, 1e6, 1e-300,
                       float("nan"), float("inf"), float("-inf")])


@st.composite
def help_case(draw):
    return {
        "dens": draw(st.lists(VAL, min_size=1, max_size=8)),
        "num": draw(st.sampled_from([0, 1, -2, 3.5, 7])),
        "den": draw(st.sampled_from([0, 0.0, 1, -4, 0.25, 3])),
        "default": draw(st.sampled_from([None, 0.0, -1, 5])),
        "data": draw(st.lists(st.integers(-3, 3), min_size=1, max_size=12)),
        "as_array": draw(st.booleans()),
        "n": draw(st.integers(1, 12)), "d": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 999)),
        "rowvar": draw(st.booleans()),
        "axis": draw(st.integers(0, 1)),
    }


@fail_on_raise
def eval_help(case):
    # density
    d = np.array(case["dens"], dtype=float)
    d0 = d.copy()
    f = call(base.fix_density, d)
    if not np.array_equal(d, d0, equal_nan=True):
        raise Violation("fix_density modified its input")
    w = np.where(np.isfinite(d), d, 0.0)
    want = w / w.sum() if w.sum() > 0 else np.full(len(d), 1.0 / len(d))
    if f.shape != d.shape or not np.allclose(f, want, rtol=1e-9, atol=1e-15) \
            or abs(f.sum() - 1) > 1e-9:
        raise Violation("fix_density(%s) = %s" % (case["dens"], f.tolist()))
    # division
    kw = {} if case["default"] is None else {"default": case["default"]}
    q = call(base.safe_divide, case["num"], case["den"], **kw)
    if case["den"] == 0:
        good = q == (math.inf if case["default"] is None else case["default"])
    else:
        good = q == case["num"] / case["den"]
    if not good:
        raise Violation("safe_divide(%s, %s, %s) = %s" % (
            case["num"], case["den"], case["default"], q))
    # mode
    data = np.array(case["data"]) if case["as_array"] else case["data"]
    m = call(base.mode, data)
    c = Counter(case["data"])
    if c[int(m)] != max(c.values()) or \
            int(m) != min(k for k in c if c[k] == max(c.values())):
        raise Violation("mode(%s) = %s" % (case["data"], m))
    # covariance
    r = np.random.RandomState(case["seed"])
    n, dim = max(2, case["n"]), case["d"]
    X = np.round(r.normal(size=(n, dim)) * 2, 1)
    A = X.T if case["rowvar"] else X
    C = np.asarray(call(base.cov, A, rowvar=case["rowvar"]))
    ref = np.zeros((dim, dim))
    mu = X.mean(axis=0)
    for i in range(dim):
        for j in range(dim):
            ref[i, j] = sum((X[k, i] - mu[i]) * (X[k, j] - mu[j])
                            for k in range(n)) / (n - 1)
    if C.shape != (dim, dim) or not np.allclose(C, ref, atol=1e-9):
        raise Violation("cov of %s (rowvar=%s) = %s" % (
            X.tolist(), case["rowvar"], C.tolist()))
    # mode along an axis
    Z = r.randint(-2, 3, (case["n"], dim))
    M = call(_scipyport.scipy_mode, Z, axis=case["axis"]).mode
    shape = (1, dim) if case["axis"] == 0 else (case["n"], 1)
    lines = Z.T if case["axis"] == 0 else Z
    if M.shape != shape:
        raise Violation("scipy_mode: shape %s along axis %d of %s" % (
            M.shape, case["axis"], Z.shape))
    for v, line in zip(M.ravel(), lines):
        c = Counter(line.tolist())
        if int(v) != min(k for k in c if c[k] == max(c.values())):
            raise Violation("scipy_mode(%s) = %s" % (line.tolist(), v))
    # shuffling
    y = np.arange(n)
    a, b = call(base.shuffle_training_set, X, y, None)
    if not (np.array_equal(a, X) and np.array_equal(b, y)):
        raise Violation("shuffling without random state changes the data")
    a, b = call(base.shuffle_training_set, X, y,
                np.random.RandomState(case["seed"]))
    a2, b2 = call(base.shuffle_training_set, X, y,
                  np.random.RandomState(case["seed"]))
    if sorted(b.tolist()) != y.tolist() or not np.array_equal(a, X[b]) or \
            not np.array_equal(b, b2) or not np.array_equal(a, a2):
        raise Violation("shuffle_training_set: rows and labels do not match")
    return {"nontrivial": len(case["dens"]) > 1 and n > 2,
            "tags": ["density:" + ("uniform" if w.sum() == 0 else "given"),
                     "den0" if case["den"] == 0 else "den"]}


# --------------------------------------------------------- random sampling
@st.composite
def rnd_case(draw):
    return {"d": draw(st.integers(1, 6)), "seed": draw(st.integers(0, 999)),
            "scale": draw(st.sampled_from([1.0, 1e-6, 1e6])),
            "same": draw(st.integers(0, 7)) == 0,
            "many": draw(st.integers(0, 3)) == 0}


def uniform(u, what):
    """Kolmogorov-Smirnov at level 1e-12"""
    u, n = np.sort(u), len(u)
    D = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    if D > math.sqrt(math.log(2 / 1e-12) / 2 / n):
        raise Violation("%s: off the expected distribution by %.3f" % (what, D))


def independent(U, what):
    """columns and successive rows of uniform numbers: quadrant counts"""
    B = U > 0.5
    n = len(B)
    d = B.shape[1]
    cols = [(B[:, i], B[:, j]) for i in range(d) for j in range(i)]
    cols += [(B[1:, i], B[:-1, i]) for i in range(d)]
    for a, b in cols:
        c = int(np.sum(a == b))
        if binom.cdf(c, len(a), 0.5) < 1e-12 or \
                binom.sf(c - 1, len(a), 0.5) < 1e-12:
            raise Violation("%s: components that should be independent agree "
                            "%d times out of %d" % (what, c, len(a)))


@fail_on_raise
def eval_rnd(case):
    r = np.random.RandomState(case["seed"])
    d = case["d"]
    x, z = r.normal(size=d) * case["scale"], r.normal(size=d) * case["scale"]
    if case["same"]:
        z = x.copy()
    std = np.abs(r.normal(size=d)) * case["scale"]
    mask = r.randint(0, 2, d)
    g = lambda: sv.ROSE(random_state=case["seed"])  # noqa
    tol = 1e-9 * case["scale"]
    x0, z0 = x.copy(), z.copy()

    def on_segment(p, what, z=z):
        v = z - x
        n = float(v @ v)
        t = 0.0 if n == 0 else float((p - x) @ v) / n
        if np.shape(p) != (d,) or not -1e-9 <= t <= 1 + 1e-9 or \
                np.abs(x + t * v - p).max() > 1e-6 * case["scale"]:
            raise Violation("%s leaves the segment" % what)

    for _ in range(3):
        o = g()
        for i in range(4):
            on_segment(call(o.sample_between_points, x, z),
                       "sample_between_points")
            lo, hi = np.minimum(x, z) - tol, np.maximum(x, z) + tol
            p = call(o.sample_between_points_componentwise, x, z)
            if np.shape(p) != (d,) or np.any(p < lo) or np.any(p > hi):
                raise Violation("componentwise sampling leaves the box")
            p = call(o.sample_between_points_componentwise, x, z, mask)
            if np.shape(p) != (d,) or np.any(p < lo) or np.any(p > hi) or \
                    not np.array_equal(p[mask == 0], x[mask == 0]):
                raise Violation("sampling between points ignores its mask")
            p = call(o.sample_by_jittering, x, std)
            if np.shape(p) != (d,) or np.any(np.abs(p - x) > std + tol):
                raise Violation("sample_by_jittering exceeds the deviation")
            p = call(o.sample_by_jittering_componentwise, x, std)
            if np.shape(p) != (d,) or np.any(np.abs(p - x) > std + tol):
                raise Violation("componentwise jittering exceeds the deviation")
            p = call(o.sample_by_gaussian_jittering, x, std)
            if np.shape(p) != (d,) or np.any(np.abs(p - x) > 9 * std + tol):
                raise Violation("gaussian jittering nine deviations away")
    if not (np.array_equal(x, x0) and np.array_equal(z, z0)):
        raise Violation("the points were modified")
    if case["many"]:
        o, n = g(), 300

        def draw(fn, *a):
            return np.array([call(fn, *a) for _ in range(n)])
        if not case["same"]:
            v = z - x
            uniform((draw(o.sample_between_points, x, z) - x) @ v / (v @ v),
                    "positions between two points")
            uniform(((draw(o.sample_between_points_componentwise, x, z) - x)
                     / v)[:, 0], "componentwise positions between two points")
        for fn, indep in ((o.sample_by_jittering, False),
                          (o.sample_by_jittering_componentwise, True)):
            J = (draw(fn, x, std) - x) / std / 2 + 0.5
            for i in range(d):
                uniform(J[:, i], "%s, component %d" % (fn.__name__, i))
            if indep:
                independent(J, fn.__name__)
        J = (draw(o.sample_by_gaussian_jittering, x, std) - x) / std
        for i in range(d):
            uniform(norm.cdf(J[:, i]), "gaussian jitter, component %d" % i)
        independent(norm.cdf(J), "gaussian jitter")
    a, b = g(), g()
    if not np.array_equal(a.sample_between_points(x, z),
                          b.sample_between_points(x, z)):
        raise Violation("sampling between points is not reproducible")
    return {"nontrivial": d > 1, "tags": ["d:%d" % d]}


# ---------------------------------------------------------- array utilities
@st.composite
def arr_case(draw):
    return {"n": draw(st.integers(1, 7)), "m": draw(st.integers(1, 5)),
            "k": draw(st.integers(1, 5)), "d": draw(st.integers(1, 5)),
            "dim": draw(st.integers(1, 4)),
            "kind": draw(st.sampled_from(["gauss", "grid", "flat", "same"])),
            "zero": draw(st.booleans()),
            "seed": draw(st.integers(0, 9999))}


def volume(V):
    """by Cayley-Menger: independent of the choice of the last vertex"""
    k = len(V) - 1
    if k == 0:
        return 1.0
    D = ((V[:, None] - V[None]) ** 2).sum(-1)
    M = np.ones((k + 2, k + 2))
    M[0, 0] = 0
    M[1:, 1:] = D
    v2 = (-1) ** (k + 1) / (2 ** k * math.factorial(k) ** 2) * np.linalg.det(M)
    return math.sqrt(max(0.0, v2))


@fail_on_raise
def eval_arr(case):
    r = np.random.RandomState(case["seed"])
    n, m, k, d = case["n"], case["m"], case["k"], case["d"]
    A = r.randint(0, 50, (n, m))
    I = r.randint(0, m, (n, k))
    got = call(S.array_array_index, A, I)
    want = np.array([[A[i, j] for j in I[i]] for i in range(n)])
    if not np.array_equal(got, want):
        raise Violation("array_array_index(%s, %s) = %s" % (
            A.tolist(), I.tolist(), np.asarray(got).tolist()))
    parts = [r.randint(0, 9, r.randint(1, 4)) for _ in range(min(k, 4))]
    got = call(S.cartesian_product, *parts)
    if [tuple(t) for t in got.tolist()] != [
            tuple(int(v) for v in t) for t in itertools.product(*parts)]:
        raise Violation("cartesian_product(%s) = %s" % (
            [p.tolist() for p in parts], got.tolist()))
    # choice per row
    P = r.random_sample((n, m)) + 1e-3
    if case["zero"] and m > 1:
        P[np.arange(n), r.randint(0, m, n)] = 0.0
    P = P / P.sum(axis=1)[:, None]
    arr = r.permutation(100)[:m]
    for s in range(4):
        got = call(S.vector_choice, arr, P, np.random.RandomState(s))
        if got.shape != (n,):
            raise Violation("vector_choice: shape %s" % (got.shape,))
        for i in range(n):
            j = np.where(arr == got[i])[0]
            if len(j) != 1 or P[i, j[0]] == 0:
                raise Violation("vector_choice picks %s of %s with weights %s" % (
                    got[i], arr.tolist(), P[i].tolist()))
    # every row is drawn on its own, with its own weights
    big = 300
    got = call(S.vector_choice, arr, np.repeat(P[:1], big, axis=0),
               np.random.RandomState(case["seed"]))
    for j in range(len(arr)):
        c = int(np.sum(got == arr[j]))
        p = min(max(float(P[0, j]), 0.0), 1.0)
        if binom.cdf(c, big, p) < 1e-13 or binom.sf(c - 1, big, p) < 1e-13:
            raise Violation("vector_choice takes %s %d times out of %d with "
                            "weight %.3f" % (arr[j], c, big, p))
    # simplices of the neighbours: all combinations, once each
    nn = case["dim"] + r.randint(0, 3)
    nn = max(nn, 2)
    ind = np.array([np.concatenate([[i], r.permutation(
        [j for j in range(nn + 4) if j != i])[:nn - 1]])
        for i in range(min(n, nn))])
    simp = call(S.all_neighbor_simplices_real_idx, case["dim"], ind)
    want = [(i,) + tuple(int(v) for v in c) for i in range(len(ind))
            for c in itertools.combinations(ind[i][1:], case["dim"] - 1)]
    if sorted(map(tuple, simp.tolist())) != sorted(want):
        raise Violation("simplices of dimension %d over %s: %s" % (
            case["dim"], ind.tolist(), simp.tolist()))
    # volumes
    V = r.normal(size=(n, case["dim"], max(d, 1)))
    if case["kind"] == "grid":
        V = np.round(V)
    elif case["kind"] == "flat":
        V[:, -1] = V[:, 0]
    elif case["kind"] == "same":
        V[:] = V[:, :1]
    if case["dim"] > 1:
        got = call(S.simplex_volumes, V)
        for v, x in zip(got, V):
            w = volume(x)
            if not np.isfinite(v) or v < 0 or abs(v - w) > 1e-6 * (1 + w):
                raise Violation("volume %s of the simplex %s, expected %s" % (
                    v, x.tolist(), w))
    return {"nontrivial": n > 1 and m > 1, "tags": ["dim:%d" % case["dim"]]}


# -------------------------------------------------------------------- config
@st.composite
def conf_case(draw):
    return {"ops": draw(st.lists(st.tuples(
        st.sampled_from(["ext", "int", "mem"]),
        st.sampled_from([None, None, True, False, 1, 7, 1000])),
        min_size=1, max_size=8))}


@fail_on_raise
def eval_conf(case):
    fns = {"ext": config.suppress_external_warnings,
           "int": config.suppress_internal_warnings,
           "mem": config.distance_matrix_max_memory_chunk}
    old = {k: f() for k, f in fns.items()}
    model = dict(old)
    try:
        for k, v in case["ops"]:
            if k == "mem" and isinstance(v, bool):
                v = 5
            if v is not None:
                model[k] = v
            got = fns[k](v) if v is not None else fns[k]()
            if got != model[k] or {q: f() for q, f in fns.items()} != model:
                raise Violation("configuration after %s: %s, expected %s" % (
                    case["ops"], {q: f() for q, f in fns.items()}, model))
    finally:
        for k, f in fns.items():
            f(old[k])
    return {"nontrivial": len(case["ops"]) > 1, "tags": []}


def tasks(tier):
    k = 1 if tier == "quick" else 12
    return [Task("statistics", stat_case, eval_stats, 2500 * k),
            Task("helpers", help_case, eval_help, 2000 * k),
            Task("random", rnd_case, eval_rnd, 800 * k),
            Task("arrays", arr_case, eval_arr, 2000 * k),
            Task("configuration", conf_case, eval_conf, 400 * k)]


RUNNER = Runner(
    "C26", "",
    "one case = labels of two classes (ints, floats, strings, booleans, small "
    "unsigned and signed types) x counts x proportion, or inputs of the "
    "numerical, sampling and array helpers, or a sequence of configuration "
    "calls; non-trivial = class sizes differ / more than one element",
    ["densities are non-negative apart from undefined entries",
     "gaussian jittering is bounded at nine standard deviations"], tasks)
