"""Simplex sampling over traceable points: the points are the unit vectors, so
every sample's coordinates are its barycentric weights."""
import itertools
import math
from collections import Counter
import numpy as np
from hypothesis import strategies as st
from smote_variants.base import SimplexSamplingMixin
from smote_variants.base import _simplexsampling as S
from .. import over
from ..core import Task, Runner, Violation, Skip

TOL = 1e-9


@st.composite
def case_of(draw, mode):
    n = draw(st.integers(2, 8))
    m = draw(st.integers(2, 7)) if draw(st.booleans()) else 0
    same = m == 0 and draw(st.integers(0, 3)) == 0
    pool = m or n
    k = draw(st.integers(1, min(5, pool)))
    n_dim = draw(st.integers(1, 4))
    within = "random"
    if mode == "even":
        within = "deterministic"
        n_dim = draw(st.integers(1, 2))
    table = []
    r = draw(st.integers(0, 10 ** 6))
    rr = np.random.RandomState(r)
    for i in range(n):
        others = [j for j in range(pool) if m or j != i]
        rr.shuffle(others)
        row = ([i] if not m else [others.pop()]) + others[:k - 1]
        table.append([int(v) for v in row])
    c = {"n": n, "m": m, "same": same, "table": table, "n_dim": n_dim,
         "n_to_sample": draw(st.sampled_from([0, 1, 1, 2, 3, 5, 8, 13, 21, 40, 77])),
         "simplex": draw(st.sampled_from(["random", "deterministic"]))
         if mode != "quota" else "deterministic",
         "within": within, "rs": draw(st.integers(0, 99)),
         "w": None, "sw": None, "vw": None, "n_to_sample0": False}
    wt = st.sampled_from([0.0, 0.0, 0.5, 1.0, 1.0, 2.5, 0.1])
    if draw(st.booleans()):
        w = [draw(wt) for _ in range(n)]
        if sum(w) > 0:
            c["w"] = [x / sum(w) for x in w]
    if draw(st.integers(0, 2)) == 0:
        c["sw"] = [[draw(wt) for _ in range(len(table[0]))] for _ in range(n)]
    if draw(st.integers(0, 2)) == 0:
        c["vw"] = [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0]))
                   for _ in range(pool)]
    return c


def expected(case):
    """[(base, neighbours tuple, share)] by the definition"""
    tab = case["table"]
    k = len(tab[0])
    nd = min(case["n_dim"], k)
    w = case["w"]
    out = []
    for b in range(case["n"]):
        for pos in itertools.combinations(range(1, k), nd - 1):
            s = w[b] if w is not None else 1.0
            if case["sw"] is not None:
                for p in pos:
                    s *= case["sw"][b][p]
            out.append((b, tuple(tab[b][p] for p in pos), s))
    tot = sum(s for _, _, s in out)
    if tot <= 0:
        raise Skip("no simplex with positive weight")
    return [(b, ns, s / tot) for b, ns, s in out], nd


def run(case, rs=None):
    n, m = case["n"], case["m"]
    E = np.eye(n + m)
    X = E[:n].copy()
    V = E[n:].copy() if m else (X if case["same"] else None)
    ssm = SimplexSamplingMixin(
        n_dim=case["n_dim"], simplex_sampling=case["simplex"],
        within_simplex_sampling=case["within"],
        random_state=case["rs"] if rs is None else rs)
    idx = np.array(case["table"])
    kw = dict(indices=idx, n_to_sample=case["n_to_sample"])
    if case["w"] is not None:
        kw["base_weights"] = np.array(case["w"])
    if case["sw"] is not None:
        kw["simplex_weights"] = np.array(case["sw"])
    if case["vw"] is not None:
        kw["vertex_weights"] = np.array(case["vw"])
    if V is not None:
        kw["X_vertices"] = V
    snap = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    X0 = X.copy()
    try:
        out = over.guarded(ssm.sample_simplex, X, **kw)
    except over.Raised as e:
        raise Violation("sample_simplex: %s" % e)
    if not np.array_equal(X, X0) or any(
            not np.array_equal(kw[k], v) for k, v in snap.items()):
        raise Violation("sample_simplex modified its arguments")
    return out


def evaluate(case):
    exp, nd = expected(case)
    out = run(case)
    n, m = case["n"], case["m"]
    if out.shape != (case["n_to_sample"], n + m):
        raise Violation("asked for %d samples, got an array of shape %s" % (
            case["n_to_sample"], out.shape))
    if np.any(out < -TOL) or np.any(np.abs(out.sum(axis=1) - 1) > TOL):
        raise Violation("a sample is not a convex combination: %s" % out.tolist())
    tags = ["ndim:%d" % nd, case["simplex"], case["within"]]
    tags += [t for t in ("w", "sw", "vw") if case[t] is not None]
    # every sample: supported by one allowed simplex
    allowed = [(b, frozenset([n + j if m else j for j in ns])) for b, ns, s in exp
               if s > 0]
    vw = case["vw"]
    got = Counter()
    for row in out:
        supp = frozenset(np.where(row > TOL)[0].tolist())
        ok = [(b, f) for b, f in allowed if supp <= f | {b} and (
            b in supp or not (b in supp) and nd == 0)]
        if vw is None:
            ok = [(b, f) for b, f in ok if supp == f | {b}]
        if not ok:
            raise Violation(
                "a sample combines the points %s; allowed simplices (base, "
                "neighbours; positive weight): %s" % (
                    sorted(supp), [(b, sorted(f)) for b, f in allowed]))
        got[supp] += 1
    N = case["n_to_sample"]
    if case["simplex"] == "deterministic" and vw is None:
        share = Counter()
        mult = Counter()
        for b, ns, s in exp:
            if s > 0:
                key = frozenset([n + j if m else j for j in ns]) | {b}
                share[key] += s * N
                mult[key] += 1
        for key in share:
            if abs(got[key] - share[key]) >= mult[key] + 1e-6:
                raise Violation("deterministic simplex selection: simplex %s gets "
                                "%d samples, its share is %.3f" % (
                                    sorted(key), got[key], share[key]))
        tags.append("quota")
        if case["within"] == "deterministic":
            if not np.array_equal(out, run(case, rs=case["rs"] + 17)):
                raise Violation("fully deterministic sampling depends on the "
                                "random state")
    if case["within"] == "deterministic" and nd == 2:
        pairs = {}
        for row in out:
            supp = tuple(np.where(row > TOL)[0].tolist())
            pairs.setdefault(supp, []).append(row)
        if vw is None:
            for supp, rows in pairs.items():
                c = len(rows)
                want = np.arange(1, c + 1) / (c + 1)
                have = np.sort([r[supp[0]] for r in rows])
                if m == 0:
                    if not np.allclose(have, want, atol=1e-9):
                        raise Violation("the %d samples of pair %s sit at %s, an "
                                        "even split is %s" % (
                                            c, supp, have.tolist(), want.tolist()))
                elif not np.allclose(have, want, atol=1e-9):
                    raise Violation("the %d samples of pair %s sit at %s, an even"
                                    " split is %s" % (c, supp, have.tolist(),
                                                      want.tolist()))
            tags.append("even split")
        else:
            # the step towards a neighbour is at most its weight
            for row in out:
                supp = [int(v) for v in np.where(row > TOL)[0]]
                cand = []
                for b, f in allowed:
                    (j,) = tuple(f)
                    if set(supp) <= {b, j}:
                        cand.append(row[j] <= vw[j - n if m else j] + TOL)
                if cand and not any(cand):
                    raise Violation("a sample goes further towards its neighbour "
                                    "than the vertex weight allows: %s" % (
                                        row.tolist(),))
    if vw is not None and case["within"] == "random" and nd >= 2:
        for row in out:
            supp = set(np.where(row > TOL)[0].tolist())
            if not any(supp <= f | {b} and all(
                    row[j] <= vw[j - n if m else j] + TOL for j in f)
                    for b, f in allowed):
                raise Violation("a sample goes further towards its neighbour "
                                "than the vertex weight allows: %s" % (
                                    row.tolist(),))
    return {"nontrivial": nd >= 2, "tags": tags}


@st.composite
def helper_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(1, 7)),
            "k": draw(st.integers(2, 6)), "q": draw(st.integers(1, 4)),
            "d": draw(st.integers(1, 5)), "N": draw(st.integers(1, 60))}


def eval_helpers(case):
    r = np.random.RandomState(case["seed"])
    n, k, q, d = case["n"], case["k"], case["q"], case["d"]
    A = r.normal(size=(n, k))
    idx = r.randint(0, k, (n, q))
    if not np.array_equal(S.array_array_index(A, idx),
                          np.take_along_axis(A, idx, axis=1)):
        raise Violation("array_array_index differs from element-wise indexing")
    nd = min(q, k)
    got = S.base_idx_neighbor_idx_simplices(n_base=n, n_neighbors=k, n_dim=nd)
    want = [(b,) + c for b in range(n)
            for c in itertools.combinations(range(1, k), nd - 1)]
    if [tuple(int(v) for v in row) for row in got] != want:
        raise Violation("base_idx_neighbor_idx_simplices(%d, %d, %d) is wrong" % (
            n, k, nd))
    # volumes against the Cayley-Menger determinant
    nv = min(q + 1, d + 1)
    P = r.normal(size=(3, nv, d)) * 3
    vols = S.simplex_volumes(P)
    for p, v in zip(P, vols):
        D2 = np.sum((p[:, None] - p[None]) ** 2, axis=2)
        M = np.ones((nv + 1, nv + 1))
        M[0, 0] = 0
        M[1:, 1:] = D2
        j = nv - 1
        ref = np.sqrt(max(0.0, (-1) ** (j + 1) / (2 ** j * math.factorial(j) ** 2)
                          * np.linalg.det(M)))
        if abs(ref - v) > 1e-6 * (1 + ref):
            raise Violation("volume of simplex %s: %r, Cayley-Menger %r" % (
                p.tolist(), float(v), float(ref)))
    arrs = [r.normal(size=r.randint(1, 4)) for _ in range(min(q, 3))]
    cp = S.cartesian_product(*arrs)
    if [tuple(x) for x in cp.tolist()] != [tuple(float(v) for v in x)
                                           for x in itertools.product(*arrs)]:
        raise Violation("cartesian_product is wrong")
    P = r.random_sample((n, k)) * (r.random_sample((n, k)) < 0.7)
    P[:, 0] += P.sum(axis=1) == 0
    P = P / P.sum(axis=1)[:, None]
    arr = np.arange(100, 100 + k)
    ch = S.vector_choice(arr, P, np.random.RandomState(case["seed"]))
    for i, c in enumerate(ch):
        if P[i, int(c) - 100] == 0:
            raise Violation("vector_choice picked an element of probability 0")
    # deterministic_sample: quotas
    p = r.random_sample(k) * (r.random_sample(k) < 0.8)
    if p.sum() == 0:
        p[0] = 1
    p = p / p.sum()
    N = case["N"]
    ds = S.deterministic_sample(np.arange(k), N, p)
    cnt = np.bincount(ds, minlength=k)
    if len(ds) != N or np.any(np.abs(cnt - N * p) >= 1 + 1e-6):
        raise Violation("deterministic_sample: counts %s for shares %s" % (
            cnt.tolist(), (N * p).tolist()))
    if np.any(cnt[p == 0] > 0):
        raise Violation("deterministic_sample used a choice of probability 0")
    return {"tags": []}


@st.composite
def vol_case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(3, 8)),
            "d": draw(st.integers(2, 4)), "n_dim": draw(st.integers(2, 3)),
            "N": draw(st.sampled_from([1, 5, 30]))}


def eval_volume(case):
    """volume weighting: the empirical use of degenerate simplices is nil"""
    r = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    X = r.normal(size=(n, d))
    X[1] = X[0]                       # a zero-length edge
    if n == 3 and case["n_dim"] == 3:
        raise Skip("every simplex is degenerate")
    idx = np.array([[i] + [int(j) for j in r.permutation(
        [j for j in range(n) if j != i])] for i in range(n)])
    ssm = SimplexSamplingMixin(n_dim=case["n_dim"], simplex_sampling="volume",
                               within_simplex_sampling="random", random_state=3)
    sim = ssm.simplices(X, case["N"], indices=idx, n_dim=case["n_dim"])
    if len(sim) != case["N"]:
        raise Violation("simplices returned %d rows" % len(sim))
    for s in sim:
        if len(set(s.tolist())) != len(s):
            raise Violation("a simplex repeats a vertex: %s" % s.tolist())
        if {0, 1} <= set(s.tolist()) and case["n_dim"] == 2:
            raise Violation("volume weighting picked a simplex of volume 0")
    return {"tags": ["volume"]}


@st.composite
def share_case(draw):
    c = draw(case_of("mixed"))
    c.update(simplex="random", within="random", vw=None, n_to_sample=3000)
    return c


def eval_share(case):
    """random selection: every simplex gets its share"""
    from scipy.stats import binom
    exp, nd = expected(case)
    out = run(case)
    n, m = case["n"], case["m"]
    share = Counter()
    for b, ns, s in exp:
        share[frozenset([n + j if m else j for j in ns]) | {b}] += s
    got = Counter(frozenset(np.where(row > TOL)[0].tolist()) for row in out)
    N = len(out)
    for key, s in share.items():
        c = got[key]
        s = min(max(s, 0.0), 1.0)
        if binom.cdf(c, N, s) < 1e-11 or binom.sf(c - 1, N, s) < 1e-11:
            raise Violation("simplex %s gets %d of %d samples, its share is %.4f"
                            % (sorted(key), c, N, s))
    return {"nontrivial": len(share) > 1, "tags": ["ndim:%d" % nd] + [
        t for t in ("w", "sw") if case[t] is not None]}


def eval_volume_share(case):
    """volume weighting: the share of a simplex is its share in the volume"""
    from scipy.stats import binom
    r = np.random.RandomState(case["seed"])
    n, d, nd = case["n"], case["d"], case["n_dim"]
    X = r.normal(size=(n, d)) * r.uniform(0.2, 3, size=(n, 1))
    k = min(n, 5)
    if nd > k:
        raise Skip("too few points")
    idx = np.array([[i] + [int(j) for j in r.permutation(
        [j for j in range(n) if j != i])][:k - 1] for i in range(n)])
    ssm = SimplexSamplingMixin(n_dim=nd, simplex_sampling="volume",
                               within_simplex_sampling="random", random_state=3)
    N = 3000
    sim = ssm.simplices(X, N, indices=idx, n_dim=nd)
    share, tot = Counter(), 0.0
    for i in range(n):
        for ns in itertools.combinations(idx[i][1:].tolist(), nd - 1):
            P = X[[i] + list(ns)]
            G = P[1:] - P[0]
            v = math.sqrt(max(0.0, np.linalg.det(G @ G.T)))
            share[(i, frozenset(ns))] += v
            tot += v
    if tot < 1e-6:
        raise Skip("every simplex is degenerate")
    got = Counter((int(s[0]), frozenset(s[1:].tolist())) for s in sim)
    if len(sim) != N or set(got) - set(share):
        raise Violation("simplices which are not in the neighbour table")
    for key, v in share.items():
        q = min(1.0, v / tot)
        if binom.cdf(got[key], N, q) < 1e-11 or binom.sf(got[key] - 1, N, q) < 1e-11:
            raise Violation("simplex %s gets %d of %d, its share of the volume is "
                            "%.4f" % (key, got[key], N, q))
    return {"tags": ["volume share"]}


@st.composite
def noise_case(draw):
    d = draw(st.integers(1, 4))
    sg = st.sampled_from([0.0, 0.001, 0.3, 0.5, 2.0, 5.0])
    return {"d": d, "n": draw(st.integers(2, 6)), "n_dim": draw(st.integers(1, 3)),
            "N": draw(st.sampled_from([1, 150, 150, 400])),
            "simplex": draw(st.sampled_from(["random", "deterministic"])),
            "within": draw(st.sampled_from(["random", "deterministic"])),
            "sigma": draw(st.one_of(sg, st.lists(sg, min_size=d, max_size=d))),
            "p": [draw(st.integers(-3, 3)) for _ in range(d)],
            "rs": draw(st.integers(0, 99))}


def eval_noise(case):
    """all points coincide, so that what is left of a sample is the noise"""
    d, n = case["d"], case["n"]
    if case["within"] == "deterministic" and case["n_dim"] > 2:
        raise Skip("not available")
    X = np.tile(np.array(case["p"], dtype=float), (n, 1))
    sg = case["sigma"]
    comp = {"sigmas": np.array(sg)} if isinstance(sg, list) else {"sigma": sg}
    ssm = SimplexSamplingMixin(
        n_dim=case["n_dim"], simplex_sampling=case["simplex"],
        within_simplex_sampling=case["within"], gaussian_component=comp,
        random_state=case["rs"])
    idx = np.array([np.roll(np.arange(n), -i) for i in range(n)])
    try:
        out = over.guarded(ssm.sample_simplex, X, indices=idx,
                           n_to_sample=case["N"])
    except over.Raised as e:
        raise Violation("sample_simplex: %s" % e)
    if out.shape != (case["N"], d):
        raise Violation("shape %s instead of %s" % (out.shape, (case["N"], d)))
    sd = np.array(sg if isinstance(sg, list) else [sg] * d)
    Z = out - X[0]
    if np.any(np.abs(Z[:, sd == 0]) > 1e-9):
        raise Violation("noise of deviation 0 moves the samples")
    if np.any(np.abs(Z) > 1e-9 + 9 * sd):
        raise Violation("noise %g with the deviations %s" % (
            np.abs(Z).max(), sd.tolist()))
    from scipy.stats import kstest
    for j in np.where(sd > 0)[0]:
        if case["N"] >= 150 and kstest(Z[:, j] / sd[j], "norm").pvalue < 1e-11:
            raise Violation("the noise of feature %d is not normal with the "
                            "deviation %g (it has %g)" % (j, sd[j], Z[:, j].std()))
    W = Z[:, sd > 0] / sd[sd > 0]
    if len(np.unique(np.round(W.ravel(), 9))) < 0.95 * W.size:
        raise Violation("samples or features share their noise")
    return {"nontrivial": case["N"] > 1 and bool(np.any(sd > 0)),
            "tags": ["per dimension" if isinstance(sg, list) else "one sigma"]}


def tasks(tier):
    k = 1 if tier == "quick" else 12
    out = []
    for mode in ("quota", "even", "mixed"):
        for i in range(2 if tier == "quick" else 4):
            out.append(Task("%s#%d" % (mode, i), lambda mode=mode: case_of(mode),
                            evaluate, 900 * k))
    out.append(Task("noise", noise_case, eval_noise, 400 * k))
    out.append(Task("share", share_case, eval_share, 150 * k))
    out.append(Task("volume share", vol_case, eval_volume_share, 150 * k))
    out.append(Task("helpers", helper_case, eval_helpers, 1200 * k))
    out.append(Task("volume", vol_case, eval_volume, 400 * k))
    return out


RUNNER = Runner(
    "C10", "",
    "one case = base points, neighbour table, weights, modes and sample count; "
    "the points are unit vectors so each sample reveals its barycentric "
    "weights; non-trivial = distinct case with simplices of at least two points",
    ["up to 8 base points and 7 further vertices, simplices of up to 4 points"],
    tasks)
