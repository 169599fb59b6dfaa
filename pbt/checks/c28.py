"""Where the techniques generate: an independent model of every listed
technique gives the regions (segments or boxes) that its definition allows,
with the share of the samples each of them gets."""
import itertools
import math
from collections import Counter
import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom
from sklearn.cluster import KMeans, DBSCAN
from sklearn.linear_model import LogisticRegression
from scipy.optimize import nnls
from .. import gen, params, over
from ..core import Task, Runner, Violation, Skip

TOL = 1e-7
KINDS = ["gauss", "sep", "overlap", "clusters", "boundary", "skewed", "big",
         "tiny"]


class Ambiguous(Skip):
    pass


# ------------------------------------------------------------------- helpers
def dist(A, B):
    return np.sqrt(np.sum((A[:, None, :] - B[None, :, :]) ** 2, axis=2))


def knn(Q, A, k, self_first=False):
    """indices of the k nearest rows of A for every row of Q, nearest first;
    with self_first the row itself (distance 0) is left out. Data in which
    rounding could decide the order are given up."""
    D = dist(Q, A)
    o = np.argsort(D, axis=1, kind="stable")
    S = np.take_along_axis(D, o, axis=1)
    gaps = np.diff(S[:, :k + 2], axis=1)
    if gaps.size and gaps.min() < 1e-9 * max(S.max(), 1e-300):
        raise Ambiguous("distance ties")
    if self_first:
        if np.any(S[:, 0] > 0):
            raise Ambiguous("row not in the set")
        return o[:, 1:k + 1]
    return o[:, :k]


def pairs(nb, rows=None):
    """(base, neighbour) index pairs of a neighbour table"""
    rows = np.arange(len(nb)) if rows is None else rows
    return [(int(rows[i]), int(j)) for i in range(len(nb)) for j in nb[i]]


class Seg:
    """segments P[i]-Q[i] with shares w (None: no statement about shares);
    keys name the segments (reversed ones share a key)"""

    def __init__(self, P, Q, w=None, keys=None):
        self.P, self.Q = np.array(P, dtype=float), np.array(Q, dtype=float)
        self.w = None if w is None else np.array(w, dtype=float)
        self.keys = keys or list(range(len(self.P)))
        self.simplex = True

    def draw(self, n, rng):
        j = rng.choice(len(self.w), n, p=self.w / self.w.sum())
        if self.simplex:
            # the simplex sampling draws a uniform weight for every vertex and
            # normalises them
            t = rng.random_sample((n, 2))
            t = t[:, :1] / t.sum(axis=1, keepdims=True)
        else:
            t = rng.random_sample((n, 1))
        return self.P[j] + t * (self.Q[j] - self.P[j])


class Box:
    """boxes; with weights the samples are distributed uniformly in them"""

    def __init__(self, lo, hi, w=None):
        self.lo, self.hi = np.array(lo, dtype=float), np.array(hi, dtype=float)
        self.w = None if w is None else np.array(w, dtype=float)

    def draw(self, n, rng):
        j = rng.choice(len(self.w), n, p=self.w / self.w.sum())
        return self.lo[j] + rng.random_sample((n, self.lo.shape[1])) * (
            self.hi[j] - self.lo[j])


class Mix:
    """mixture of normal distributions with independent coordinates, with equal
    weights, centered at the rows of M"""

    def __init__(self, M, sd):
        self.M, self.sd = np.array(M), np.array(sd)

    def test(self, name, S):
        from scipy.stats import norm
        far = np.abs((S[:, None, :] - self.M[None]) / np.where(
            self.sd > 0, self.sd, 1e-300)).max(axis=2).min(axis=1)
        if np.any(far > 9):
            raise Violation("%s: sample %s is not near to a center" % (
                name, S[np.argmax(far)].tolist()), sig=name + " place")
        if len(S) < 300:
            return
        d = S.shape[1]
        A = np.vstack([np.eye(d), np.array([[1.0, -1.0] + [0] * (d - 2),
                                            [1.0] * d])]) if d > 1 else np.eye(1)
        n = len(S)
        crit = math.sqrt(math.log(2 / 1e-11) / 2 / n)
        for a in A:
            m, sd = self.M @ a, math.sqrt(np.sum((a * self.sd) ** 2))
            z = np.sort(S @ a)
            F = np.mean(norm.cdf((z[:, None] - m[None]) / sd), axis=1)
            D = max(np.max(np.arange(1, n + 1) / n - F),
                    np.max(F - np.arange(n) / n))
            if D > crit:
                raise Violation(
                    "%s: the distribution of %d generated samples along %s is "
                    "off by %.3f (limit %.3f)" % (name, n, a.tolist(), D, crit),
                    sig=name + " distribution")
        if n < 2000 or np.any(self.sd <= 0):
            return
        # score test of the widths: at the true widths the derivative of the
        # log-likelihood has mean zero
        Z = (S[:, None, :] - self.M[None]) / self.sd
        L = -0.5 * np.sum(Z * Z, axis=2)
        W = np.exp(L - L.max(axis=1, keepdims=True))
        W = W / W.sum(axis=1, keepdims=True)
        sc = np.einsum("ij,ijk->ik", W, Z * Z - 1)
        z = sc.mean(axis=0) / (sc.std(axis=0) + 1e-3) * math.sqrt(n)
        if np.abs(z).max() > 9:
            raise Violation(
                "%s: the widths of the normal distributions are off (score %s of "
                "%d samples)" % (name, np.round(z, 1).tolist(), n),
                sig=name + " widths")


def seg_of(A, B, pr, w=None, same=True):
    """pairs of rows; with same the two directions of a segment are one"""
    P = [A[i] for i, _ in pr]
    Q = [B[j] for _, j in pr]
    keys = [(min(p), max(p)) if same else p for p in pr]
    return Seg(np.reshape(P, (-1, A.shape[1])), np.reshape(Q, (-1, A.shape[1])),
               w, keys)


def corners(*pts):
    Z = np.array(pts)
    return Z.min(axis=0), Z.max(axis=0)


def boxes(lohi, d, w=None):
    return Box(np.reshape([b[0] for b in lohi], (-1, d)),
               np.reshape([b[1] for b in lohi], (-1, d)), w)


def at_rows(Z, X, tol):
    out = np.zeros(len(Z), bool)
    for s in range(0, len(Z), 2000):
        out[s:s + 2000] = np.any(np.all(np.abs(
            Z[s:s + 2000, None, :] - X[None]) <= tol, axis=2), axis=1)
    return out


class Like:
    """the distribution given by a function drawing from it"""

    def __init__(self, draw, eff=1.0, m=60000):
        self.draw, self.eff, self.m = draw, eff, m


def same_distribution(name, S, R, seed, X=None):
    """the samples against draws from the model: along several directions and
    by the number of samples in the boxes of the model"""
    rng = np.random.RandomState(seed)
    n, d = len(S), S.shape[1]
    T = R.draw(getattr(R, "m", 60000), rng)
    m = len(T)
    sc = T.std(axis=0)
    if not np.all(sc > 1e-9 * max(np.abs(T).max(), 1e-300)):
        return False
    S_, T_ = (S - T.mean(axis=0)) / sc, (T - T.mean(axis=0)) / sc
    A = np.vstack([np.eye(d), rng.normal(size=(3, d))])
    if getattr(R, "axes_only", False):
        A = np.eye(d)
    n_eff = n * getattr(R, "eff", 1.0)
    crit = math.sqrt(math.log(2 / 1e-12) / 2 * (1 / n_eff + 1 / m))
    for a in A:
        u, v = np.sort(S_ @ a), np.sort(T_ @ a)
        # rounding must not separate what sits at one place
        e = 1e-7
        lo = np.searchsorted(v, u - e, "left") / m - np.arange(1, n + 1) / n
        hi = np.arange(n) / n - np.searchsorted(v, u + e, "right") / m
        D = max(lo.max(), hi.max())
        if D > crit:
            raise Violation(
                "%s: the distribution of %d generated samples along %s (scaled) "
                "is off by %.3f (limit %.3f)" % (
                    name, n, np.round(a, 3).tolist(), D, crit),
                sig=name + " distribution")
    if X is not None:
        # copies of the samples of the dataset
        tol = 1e-9 * max(np.abs(T - T.mean(axis=0)).max(), 1e-6 * np.abs(T).max())
        p = np.mean(at_rows(T, X, tol))
        c = at_rows(S, X, tol).sum()
        if n_eff == n:
            unlikely(name, "are copies of samples", int(c), n, p,
                     4 / math.sqrt(m))
    if isinstance(R, Box) and hasattr(R, "lo"):
        # boxes of all sizes: the region of the model around them
        tol = TOL * (R.hi.max(axis=0) - R.lo.min(axis=0)).max()
        for j in range(min(len(R.lo), 60)):
            cnt = []
            for Z in (S, T):
                cnt.append(int(np.all((Z >= R.lo[j] - tol) & (
                    Z <= R.hi[j] + tol), axis=1).sum()))
            unlikely(name, "in the region of box %d of its definition" % j,
                     cnt[0], n, cnt[1] / m, 4 / math.sqrt(m))
    return True


def unlikely(name, where, c, n, p, err=0.0):
    """c of n samples where the definition gives the share p"""
    e = err * math.sqrt(p * (1 - p)) + (err ** 2)
    lo, hi = max(p - e, 0.0), min(p + e, 1.0)
    if (c < n * lo and binom.cdf(c, n, lo) < 1e-11) or (
            c > n * hi and binom.sf(c - 1, n, hi) < 1e-11):
        raise Violation("%s: %d of %d samples %s, their share is %.4f" % (
            name, c, n, where, p), sig=name + " share")


class Data:
    def __init__(self, case, r):
        self.X, self.y = np.asarray(r["X"], dtype=float), r["y"]
        self.mn, self.mj = r["mnl"], r["mjl"]
        self.A, self.B = self.X[self.y == self.mn], self.X[self.y == self.mj]
        self.imin = np.where(self.y == self.mn)[0]
        self.ismin = self.y == self.mn
        p = dict(r["obj"].get_params())
        self.p = p
        self.rs = case["rs"]
        self.d = self.X.shape[1]
        # the generated samples come last
        self.start, self.select = len(self.X), "tail"


def uniform(n):
    return np.repeat(1.0 / n, n) if n else np.zeros(0)


def kmeans(X, k, rs):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return KMeans(n_clusters=k, n_init="auto", random_state=rs).fit(X)


# --------------------------------------------------------------------- rules
def smote(D, k=None):
    k = min(len(D.A) - 1, k or D.p["n_neighbors"])
    pr = pairs(knn(D.A, D.A, k, True))
    return seg_of(D.A, D.A, pr, uniform(len(pr)))


def adasyn(D):
    if len(D.A) / len(D.B) > D.p["d_th"]:
        return None
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    nb = knn(D.A, D.X, k, True)
    r = np.sum(~D.ismin[nb], axis=1).astype(float)
    if r.sum() == 0:
        return None
    nn = knn(D.A, D.A, k, True)
    pr = pairs(nn)
    w = np.repeat(r / r.sum() / nn.shape[1], nn.shape[1])
    return seg_of(D.A, D.A, pr, w)


def danger(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    m = np.sum(~D.ismin[knn(D.A, D.X, k, True)], axis=1)
    noise = m == k
    return np.where((2 * m >= k) & ~noise)[0], np.where(~noise)[0]


def borderline1(D):
    dg, keep = danger(D)
    if len(keep) < 2 or len(dg) == 0:
        return None
    k = min(len(keep) - 1, D.p["k_neighbors"])
    nb = keep[knn(D.A[dg], D.A[keep], k, True)]
    pr = pairs(nb, dg)
    return seg_of(D.A, D.A, pr, uniform(len(pr)))


def borderline2(D):
    dg, keep = danger(D)
    if len(keep) < 2 or len(dg) == 0:
        return None
    k = min(len(D.X) - 1, D.p["k_neighbors"])
    nb = knn(D.A[dg], D.X, k, True)
    P, Q, keys = [], [], []
    for i, row in zip(dg, nb):
        for j in row:
            f = 1.0 if D.ismin[j] else 0.5
            P.append(D.A[i])
            Q.append(D.A[i] + f * (D.X[j] - D.A[i]))
            a, b = int(D.imin[i]), int(j)
            keys.append((min(a, b), max(a, b)))
    return Seg(P, Q, uniform(len(P)), keys)


def ans(D):
    if len(D.A) < 2:
        return None
    DD = dist(D.A, D.A)
    np.fill_diagonal(DD, np.inf)
    first = DD.min(axis=1)
    DX = dist(D.A, D.X)
    if np.min(np.abs(DX[:, ~D.ismin] - first[:, None])) < 1e-9 * DX.max():
        raise Ambiguous("distance ties")
    out = np.sum(DX[:, ~D.ismin] <= first[:, None], axis=1)
    last, C, best = -1, 0, np.inf
    for c in range(1, int(0.25 * len(D.X))):
        n = np.sum(out >= c)
        if abs(n - last) < best:
            best, C = abs(n - last), n
        last = n
    used = np.where(out < C)[0]
    if len(used) == 0:
        return None
    eps = first[used].max()
    U = DD[np.ix_(used, used)]
    fin = U[np.isfinite(U)]
    # the radius is itself a distance between two samples: nothing else may
    # come as close to it
    close = np.abs(fin - eps) < 1e-9 * max(eps, 1e-300)
    if close.sum() > 2:
        raise Ambiguous("distance ties")
    np.fill_diagonal(U, np.inf)
    edge = np.argwhere(np.abs(U - eps) < 1e-9 * max(eps, 1e-300))
    out = []
    for take in itertools.product([True, False], repeat=len(edge)):
        near = U < eps * (1 + 1e-9)
        for (a, b), t in zip(edge, take):
            near[a, b] = t
        if not near.any():
            out.append((len(D.X), None))
            continue
        pr = [(int(used[a]), int(used[b])) for a, b in np.argwhere(near)]
        n = near.sum(axis=1) + 1.0
        w = np.array([n[a] for a, _ in np.argwhere(near)])
        out.append((len(D.X), seg_of(D.A, D.A, pr, w / w.sum())))
    return Either(out)


def nrsboundary(D):
    DD = dist(D.X, D.X)
    mx = DD.max(axis=1)
    Z = DD.copy()
    np.fill_diagonal(Z, np.inf)
    mn = Z.min(axis=1)
    delta = mn + D.p["w"] * (mx - mn)
    if D.p["w"] > 0 and np.min(np.abs(Z - delta[:, None])) < 1e-9 * mx.max():
        raise Ambiguous("distance on the border")
    if D.p["w"] == 0:
        raise Ambiguous("distance on the border")
    near = DD <= delta[:, None]
    bound = [i for i in range(len(D.A)) if np.any(near[D.imin[i]] & ~D.ismin)]
    pos = [j for j in np.where(~D.ismin)[0] if not np.any(near[j] & D.ismin)]
    if not bound or not pos:
        return None
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    pr = pairs(knn(D.A[bound], D.A, k, True), bound)
    R = seg_of(D.A, D.A, pr)
    G = seg_of(D.A, D.A, pr, uniform(len(pr)))

    def free(Z):
        return np.all(dist(Z, D.X[pos]) > delta[pos] * (1 + 1e-9), axis=1)
    if D.n >= 20 and np.mean(free(G.draw(2000, np.random.RandomState(0)))) > 0.25:
        # enough of the samples of the first round (ten times the missing
        # ones) are in conflict with no positive region
        D.must = True

        def draw(n, rng):
            Z = G.draw(8 * n, rng)
            return Z[free(Z)][:n]
        R.like = Like(draw)
        R.also = lambda S: np.all(
            dist(S, D.X[pos]) > delta[pos] * (1 - 1e-9), axis=1)
    return R


def msmote(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    nb = knn(D.A, D.X, k, True)
    m = np.sum(D.ismin[nb], axis=1)
    out, w = [], []
    for i in range(len(D.A)):
        if m[i] == 0:
            continue
        q = nb[i] if m[i] == k else nb[i][:1]
        for j in q:
            out.append(corners(D.A[i], D.X[j]))
            w.append(1.0 / len(q))
    return boxes(out, D.d, w) if out else None


def gap_box(p, q, a, b):
    return corners(p + a * (q - p), p + b * (q - p))


def safe_level(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    nb = knn(D.X, D.X, k, True)
    sl = np.sum(D.ismin[nb], axis=1)
    out = []
    for i in D.imin:
        for j in nb[i]:
            p, n = sl[i], sl[j]
            if p == 0 and n == 0:
                continue
            if n == 0:
                a, b = 0.0, 0.0
            elif p == n:
                a, b = 0.0, 1.0
            elif p > n:
                a, b = 0.0, n / p
            else:
                a, b = 1.0 - p / n, 1.0
            out.append(gap_box(D.X[i], D.X[j], a, b))
    return boxes(out, D.d, uniform(len(out))) if out else None


def ln_smote(D):
    k = min(len(D.X) - 2, D.p["n_neighbors"])
    if k < 2:
        return None
    nb = knn(D.X, D.X, k + 1, True)
    out = []
    for i in D.imin:
        slp = np.sum(D.ismin[nb[i][:k]])
        for j in nb[i][:k]:
            sln = np.sum(D.ismin[nb[j][:k]])
            if not D.ismin[j] and i in nb[j][:k]:
                # the sample itself does not count, the next neighbor does
                sln = sln - 1 + int(D.ismin[nb[j][k]])
            if slp == 0 or sln == 0:
                continue
            if slp == sln:
                a, b = 0.0, 1.0
            elif slp > sln:
                a, b = 0.0, sln / slp
            else:
                a, b = 1.0 - slp / sln, 1.0
            if not D.ismin[j]:
                a, b = a * sln / k, b * sln / k
            out.append(gap_box(D.X[i], D.X[j], a, b))
    return boxes(out, D.d, uniform(len(out))) if out else None


def out_box(u, v, x):
    return corners(*[x + r * (u + q * (u - v) - x)
                     for r in (0.0, 0.5) for q in (0.0, 0.3)])


def out_boxes(D, nm, nb):
    R = boxes([out_box(D.A[i], D.B[v], D.A[x]) for i in range(len(D.A))
               for v in nm[i] for x in nb[i]], D.d, [1.0])

    def draw(n, rng):
        i = rng.randint(len(D.A), size=n)
        u = D.A[i]
        v = D.B[nm[i, rng.randint(nm.shape[1], size=n)]]
        x = D.A[nb[i, rng.randint(nb.shape[1], size=n)]]
        uu = u + 0.3 * rng.random_sample(u.shape) * (u - v)
        return x + 0.5 * rng.random_sample(u.shape) * (uu - x)
    R.draw = draw
    return R


def smote_out(D):
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    km = min(len(D.B), D.p["n_neighbors"] + 1)
    nb, nm = knn(D.A, D.A, k, True), knn(D.A, D.B, km)
    return out_boxes(D, nm, nb)


def smote_cosine(D):
    km = min(len(D.B), D.p["n_neighbors"])
    nm = knn(D.A, D.B, km)
    # duplicates are excluded, so every other minority sample may be chosen
    return out_boxes(D, nm, np.array([[x for x in range(len(D.A)) if x != i]
                                      for i in range(len(D.A))]))


def selected(D):
    lo = np.maximum(D.A.min(axis=0), D.B.min(axis=0))
    hi = np.minimum(D.A.max(axis=0), D.B.max(axis=0))
    ov = np.clip(hi - lo, 0, None)
    rng = D.A.max(axis=0) - D.A.min(axis=0)
    pc = np.where(rng != 0, ov / np.where(rng != 0, rng, 1), rng)
    n = max(1, int(np.rint(D.p["perc_sign_attr"] * D.d)))
    th = sorted(pc)[-n]
    sig = pc >= th
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    out = []
    for i, j in pairs(knn(D.A, D.A, k, True)):
        out.append(corners(D.A[i], np.where(sig, D.A[j], D.A[i])))
    return boxes(out, D.d, uniform(len(out)))


def distance_smote(D):
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    nb = knn(D.A, D.A, k, True)
    M = np.mean(D.A[nb], axis=1)
    return Seg(M, D.A, uniform(len(D.A)))


def random_smote(D):
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    nb = knn(D.A, D.A, k, True)
    R = boxes([corners(D.A[i], D.A[a], D.A[b]) for i in range(len(D.A))
               for a, b in itertools.combinations_with_replacement(nb[i], 2)],
              D.d, [1.0])

    def draw(n, rng):
        i = rng.randint(len(D.A), size=n)
        a, b = (D.A[nb[i, rng.randint(nb.shape[1], size=n)]] for _ in range(2))
        t = a + rng.random_sample(a.shape) * (b - a)
        return D.A[i] + rng.random_sample(a.shape) * (t - D.A[i])
    R.draw = draw
    return R


def prowsyn(D):
    left = np.arange(len(D.A))
    parts = []
    for level in range(D.p["L"]):
        if len(left) == 0:
            break
        k = min(len(left), D.p["n_neighbors"])
        hit = np.unique(knn(D.B, D.A[left], k))
        parts.append(left[hit])
        left = np.delete(left, hit)
    if len(left):
        parts.append(left)
    n_lev = D.p["L"]
    lev = [min(i, n_lev - 1) for i in range(len(parts))]
    w = np.exp(-D.p["theta"] * np.array(lev, dtype=float))
    w = w / w.sum()
    P, Q, W, keys = [], [], [], []
    for c, q in zip(parts, w):
        if len(c) == 1:
            P.append(D.A[c[0]])
            Q.append(D.A[c[0]])
            W.append(q)
            keys.append((int(c[0]), int(c[0])))
            continue
        pr = [(int(a), int(b)) for a in c for b in c if a != b]
        for a, b in pr:
            P.append(D.A[a])
            Q.append(D.A[b])
            W.append(q / len(pr))
            keys.append((min(a, b), max(a, b)))
    return Seg(P, Q, W, keys)


def in_clusters(D, clusters, base_p):
    """segments from every base to every other member of its cluster"""
    P, Q, W, keys = [], [], [], []
    for c in clusters:
        for a in c:
            others = [b for b in c if b != a] or [a]
            for b in others:
                P.append(D.A[a])
                Q.append(D.A[b])
                W.append(base_p[a] / len(others))
                keys.append((int(min(a, b)), int(max(a, b))))
    W = np.array(W)
    m = W > 0
    return Seg(np.array(P)[m], np.array(Q)[m], W[m],
               [k for k, f in zip(keys, m) if f])


def mwmote(D):
    k1 = min(len(D.X) - 1, D.p["k1"])
    nb = knn(D.A, D.X, k1, True)
    filt = np.where(np.sum(D.ismin[nb], axis=1) > 0)[0]
    if len(filt) == 0:
        return None
    k2 = min(len(D.B), D.p["k2"] + 1)
    border = np.unique(knn(D.A[filt], D.B, k2))
    k3 = min(len(D.A), D.p["k3"])
    inf = np.unique(knn(D.B[border], D.A, k3))
    cf = np.zeros((len(border), len(inf)))
    if D.p["cf_th"] > 0 and D.p["cmax"] > 0:
        for a, b in enumerate(border):
            for c, e in enumerate(inf):
                dn = max(0.1, np.linalg.norm(D.B[b] - D.A[e]) / D.d)
                cf[a, c] = min(1.0 / dn, D.p["cf_th"]) / D.p["cf_th"] \
                    * D.p["cmax"]
        iw = cf * cf / cf.sum(axis=1)[:, None]
        s = iw.sum(axis=0)
        s = s / s.sum()
    else:  # no closeness at all
        s = uniform(len(inf))
    base = np.zeros(len(D.A))
    base[inf] = s
    lab = kmeans(D.A, min(len(D.A), D.p["M"]), D.rs).labels_
    return in_clusters(D, [np.where(lab == c)[0] for c in range(lab.max() + 1)],
                       base)


def sdsmote(D):
    DD = dist(D.A, D.B)
    S = DD.mean()
    if np.min(np.abs(DD - S)) < 1e-9 * S:
        raise Ambiguous("distance on the border")
    w = np.sum(DD <= S, axis=1).astype(float)
    return weighted(D, w, D.p["n_neighbors"])


def weighted(D, w, k):
    """bases chosen with weight w, their k nearest minority neighbours alike"""
    w = w / w.sum() if w.sum() > 0 else uniform(len(w))
    k = min(len(D.A) - 1, k)
    nn = knn(D.A, D.A, k, True)
    W = np.repeat(w / k, k)
    pr = pairs(nn)
    keep = [i for i in range(len(pr)) if W[i] > 0]
    return seg_of(D.A, D.A, [pr[i] for i in keep], W[keep])


def mct(D):
    m = np.median(D.A, axis=0)
    q = np.linalg.norm(D.A - m, axis=1)
    # it clones
    w = q.sum() - q
    return Seg(D.A, D.A, w / w.sum() if w.sum() > 0 else uniform(len(w)))


def edge_det(D):
    mag = np.zeros(len(D.X))
    z = np.where(D.ismin, 1.0, 0.0)
    for f in range(D.d):
        o = np.argsort(D.X[:, f], kind="stable")
        if np.any(np.diff(D.X[o, f]) == 0):
            raise Ambiguous("equal feature values")
        for t in range(1, len(o) - 1):
            mag[o[t]] += (z[o[t - 1]] - z[o[t + 1]]) ** 2
    return weighted(D, np.sqrt(mag[D.ismin]), D.p["k"])


def assembled(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    m = np.sum(D.ismin[knn(D.A, D.X, k, True)], axis=1)
    border, inner = np.where(m < k)[0], np.where(m == k)[0]
    if len(border) == 0:
        return None
    cl = [[int(i)] for i in border]
    M = dist(D.A[border], D.A[border])
    knn(D.A[border], D.A[border], min(len(border), 3))
    np.fill_diagonal(M, np.inf)

    def axis(c):
        if len(c) < 2:
            raise Ambiguous("no direction")
        _, sv, vt = np.linalg.svd(D.A[c] - D.A[c].mean(axis=0))
        if len(sv) > 1 and sv[0] - sv[1] < 1e-6 * sv[0]:
            raise Ambiguous("no direction")
        return vt[0]
    while len(cl) > 1 and np.isfinite(M.min()):
        a, b = np.unravel_index(np.argmin(M), M.shape)
        merge = min(len(cl[a]), len(cl[b])) < D.p["pop"]
        if not merge:
            c = abs(axis(cl[a]) @ axis(cl[b]))
            if abs(c - D.p["thres"]) < 1e-7:
                raise Ambiguous("angle")
            merge = c > D.p["thres"]
        if not merge:
            M[a, b] = M[b, a] = np.inf
            continue
        cl[a] = cl[a] + cl[b]
        del cl[b]
        M[a] = np.minimum(M[a], M[b])
        M[:, a] = M[a]
        M = np.delete(np.delete(M, b, axis=0), b, axis=1)
        np.fill_diagonal(M, np.inf)
    if len(inner):
        cl.append([int(i) for i in inner])
    pr, W = [], []
    for c in cl:
        c = np.array(c)
        kk = min(len(c) - 1, D.p["n_neighbors"])
        q = pairs(c[knn(D.A[c], D.A[c], kk, True)], c) if kk else \
            [(int(c[0]), int(c[0]))]
        pr += q
        W += [len(c) / len(D.A) / len(q)] * len(q)
    return seg_of(D.A, D.A, pr, W)


def cluster_smote(D):
    lab = kmeans(D.A, min(len(D.A), D.p["n_clusters"]), D.rs).labels_
    cl = [np.where(lab == c)[0] for c in np.unique(lab)]
    if max(len(c) for c in cl) <= 1:
        return None
    pr, W = [], []
    for c in cl:
        k = min(D.p["n_neighbors"], len(c)) - 1
        q = pairs(c[knn(D.A[c], D.A[c], k, True)], c) if k > 0 else \
            [(int(a), int(a)) for a in c]
        pr += q
        W += [1.0 / len(cl) / len(q)] * len(q)
    return seg_of(D.A, D.A, pr, W)


def kmeans_smote(D):
    lab = kmeans(D.X, min(len(D.X), D.p["n_clusters"]), D.rs).labels_
    P, Q, W, keys = [], [], [], []
    use = []
    for c in range(lab.max() + 1):
        m = np.where((lab == c) & D.ismin)[0]
        nmaj = np.sum((lab == c) & ~D.ismin)
        if len(m) > 1 and (nmaj + 1) / (len(m) + 1) < D.p["irt"]:
            use.append(m)
    if not use:
        return None
    sp = []
    for m in use:
        DD = dist(D.X[m], D.X[m])
        avg = DD.sum() / (len(m) ** 2 - len(m))
        sp.append(avg ** D.d / len(m))
    sp = np.array(sp)
    if not np.isfinite(sp).all() or sp.sum() <= 0:
        raise Ambiguous("degenerate sparsity")
    sp = sp / sp.sum()
    pr, W = [], []
    for m, s in zip(use, sp):
        k = min(len(m) - 1, D.p["n_neighbors"])
        q = pairs(m[knn(D.X[m], D.X[m], k, True)], m)
        pr += q
        W += [s / len(q)] * len(q)
    return seg_of(D.X, D.X, pr, W)


def dbsmote(D):
    mu, sd = D.X.mean(axis=0), D.X.std(axis=0)
    Z = (D.A - mu) / sd
    eps, ms = D.p["eps"], D.p["min_samples"]
    DD = dist(Z, Z)
    off = DD[~np.eye(len(Z), dtype=bool)]
    step, lab = 0, None
    while True:
        if ms - step < 1:
            raise Ambiguous("min_samples exhausted")
        e = eps * 1.5 ** step
        if len(off) and np.min(np.abs(off - e)) < 1e-9:
            raise Ambiguous("distance on the border")
        lab = DBSCAN(eps=e, min_samples=ms - step).fit(Z).labels_
        step += 1
        if lab.max() + 1 > 0 or step >= D.p["db_iter_limit"]:
            break
    if lab.max() + 1 == 0:
        return None
    out, w = [], []
    for c in range(lab.max() + 1):
        m = np.where(lab == c)[0]
        k = min(len(m) - 1, ms)
        edge = np.full((len(m), len(m)), np.inf)
        if k >= 1:
            for a, row in enumerate(knn(Z[m], Z[m], k, True)):
                edge[a, row] = DD[m[a], m[row]]
        edge[edge >= eps] = np.inf
        cen = knn(Z[m].mean(axis=0)[None], Z[m], 1)[0, 0]
        # shortest paths from the sample nearest to the center
        far, back = np.full(len(m), np.inf), [None] * len(m)
        far[cen] = 0.0
        todo = set(range(len(m)))
        while todo:
            u = min(todo, key=lambda t: far[t])
            todo.remove(u)
            if not np.isfinite(far[u]):
                break
            for v in range(len(m)):
                q = far[u] + edge[u, v]
                if np.isfinite(q) and v != cen and \
                        abs(q - far[v]) < 1e-9 * max(q, 1e-300) and back[v] != u:
                    raise Ambiguous("equal paths")
                if q < far[v]:
                    far[v], back[v] = q, u
        for a in range(len(m)):
            path = [a]
            while back[path[-1]] is not None:
                path.append(back[path[-1]])
            steps = list(zip(path[:-1], path[1:])) or [(a, a)]
            for u, v in steps:
                out.append(corners(D.A[m[u]], D.A[m[v]]))
                w.append(1.0 / len(steps))
    R = boxes(out, D.d, w)
    # one random number per sample or one per component
    R.axes_only = True
    return R


def optics(A, ms, eps):
    import warnings
    from sklearn.cluster import OPTICS
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = OPTICS(min_samples=ms, max_eps=eps).fit(A)
    return o.core_distances_.copy(), o.reachability_.copy()


def smobd(D):
    k = min(len(D.A) - 1, D.p["min_samples"])
    if k < 2:
        return None
    pr = pairs(knn(D.A, D.A, k, True))
    lh = [corners(D.A[i], D.A[j]) for i, j in pr]
    core, reach = optics(D.A, k, D.p["max_eps"])
    with np.errstate(all="ignore"):
        ca, ra = core.mean() * D.p["t"], reach.mean() * D.p["t"]
    fin = np.isfinite(core)
    DD = dist(D.A, D.A)
    if not fin.any():
        return None
    if np.any(np.abs(core[fin] - ca) < 1e-9) or np.any(
            np.abs(reach[np.isfinite(reach)] - ra) < 1e-9) or (
            np.isfinite(D.p["max_eps"]) and
            np.any(np.abs(DD - D.p["max_eps"]) < 1e-9)):
        raise Ambiguous("threshold")
    noise = (core > ca) & (reach > ra)
    f2 = np.sum(DD <= D.p["max_eps"], axis=1).astype(float)
    core[~fin] = core[fin].max() * 1.1
    w = D.p["eta1"] * core / max(core.max(), 1e-8) + (
        1 - D.p["eta1"]) * f2 / max(f2.max(), 1e-8)
    w[noise] = 0
    if w.sum() == 0:
        w[:] = 1
    w = np.repeat(w / w.sum() / k, k)
    use = np.where(w > 0)[0]
    return boxes([lh[i] for i in use], D.d, w[use])


def oups(D):
    lr = LogisticRegression(solver="lbfgs", random_state=D.rs).fit(D.X, D.y)
    pp = lr.predict_proba(D.X)[:, list(lr.classes_).index(D.mn)]
    o = np.argsort(pp)[::-1]
    if np.any(np.abs(np.diff(pp[o])) < 1e-9):
        raise Ambiguous("equal propensities")
    p = len(D.B) / len(D.A)
    pr, W = [], []
    for t, i in enumerate(o):
        if not D.ismin[i]:
            continue
        for s in range(1, int(math.ceil(p)) + 1):
            w = min(1.0, p - s + 1)
            if t + s < len(o) and w > 0:
                pr.append((int(i), int(o[t + s])))
                W.append(w)
    if not pr:
        raise Ambiguous("no pair")
    W = np.array(W) / np.sum(W)
    return seg_of(D.X, D.X, pr, W)


def g_smote(D):
    sg = 1.0
    if D.p["method"] == "linear":
        w, V = np.linalg.eigh(np.cov(D.A, rowvar=False))
    else:
        sg = D.p.get("sigma", float(D.p["method"].split("_")[-1]))
        w, V = np.linalg.eigh(np.exp(-dist(D.A, D.A) ** 2 / (2 * sg ** 2)))
    if w[-1] - w[-2] < 1e-6 * w[-1]:
        raise Ambiguous("no principal direction")
    H = V[:, -1]
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    pr = []
    for i, row in enumerate(knn(D.A, D.A, k, True)):
        P = D.A[row] - D.A[i]
        if D.p["method"] != "linear":
            P = -dist(P, D.A) ** 2 / (2 * sg ** 2)
        c = np.abs(P @ H) / np.linalg.norm(P, axis=1)
        o = np.argsort(-c)
        if len(c) > 1 and c[o[0]] - c[o[1]] < 1e-9:
            raise Ambiguous("equal angles")
        pr.append((i, int(row[o[0]])))
    return seg_of(D.A, D.A, pr, uniform(len(pr)))


def sn_smote(D):
    n = D.p["n_neighbors"]
    lim = min(n * 10, len(D.A)) - 1
    nb = knn(D.A, D.A, lim, True)
    pr, W = [], []
    for i in range(len(D.A)):
        S, mem = D.A[nb[i][0]].copy(), [int(nb[i][0])]
        best = np.linalg.norm(D.A[i] - S)
        for j in nb[i][1:]:
            if len(mem) >= n:
                break
            c = np.linalg.norm(D.A[i] - (S + D.A[j]) / (len(mem) + 1))
            if abs(c - best) < 1e-9 * best:
                raise Ambiguous("tie")
            if c < best:
                best, S = c, S + D.A[j]
                mem.append(int(j))
        for j in mem:
            pr.append((i, j))
            W.append(1.0 / len(D.A) / len(mem))
    return seg_of(D.A, D.A, pr, W)


def adoms(D):
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    P, Q = [], []
    for i, row in enumerate(knn(D.A, D.A, k, True)):
        N = np.vstack([D.A[i:i + 1], D.A[row]])
        C = N - N.mean(axis=0)
        _, s, vt = np.linalg.svd(C, full_matrices=False)
        if len(s) > 1 and s[0] - s[1] < 1e-6 * s[0]:
            raise Ambiguous("no principal direction")
        v = vt[0]
        for j in row:
            f = D.A[j] - D.A[i]
            ip = f @ v
            if abs(ip) < 1e-9 * np.linalg.norm(f):
                raise Ambiguous("orthogonal")
            P.append(D.A[i])
            Q.append(D.A[i] + np.sign(ip) * np.linalg.norm(f) * v)
    R = Seg(P, Q, uniform(len(P)))
    R.simplex = False
    return R


def ndo(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    nb = knn(D.A, D.X, k, True)
    dd = np.take_along_axis(dist(D.A, D.X), nb, axis=1)
    h = D.ismin[nb]
    if not h.any():
        alpha = 0.0
    elif h.all():
        alpha = np.inf
    else:
        alpha = dd[h].mean() / dd[~h].mean()
    if abs(alpha - D.p["T"]) < 1e-9:
        raise Ambiguous("alpha at the threshold")
    if alpha < D.p["T"]:
        kk = min(len(D.A) - 1, 5)
        pr = pairs(knn(D.A, D.A, kk, True))
        return seg_of(D.A, D.A, pr, uniform(len(pr)))
    P, Q = [], []
    for i, row in enumerate(nb):
        for j in row:
            a, b = D.A[i], D.X[j]
            P.append(a)
            Q.append((a + b) / 2)
            if D.ismin[j]:
                P.append(b)
                Q.append((a + b) / 2)
    R = Seg(P, Q, uniform(len(P)))
    # samples of a pair come together
    R.simplex, R.eff = False, 0.5
    return R


def lvq(D):
    k = min(len(D.A), D.p["n_clusters"])
    C = kmeans(D.A, k, D.rs).cluster_centers_
    nb = knn(C, D.A, min(len(D.A), D.p["n_neighbors"]))
    share = Counter()
    for a, b in itertools.permutations(range(len(C)), 2):
        best, opt, near = np.inf, None, []
        for i in range(len(C)):
            for j in range(len(C)):
                if a in (i, j) or b in (i, j):
                    continue
                q = np.linalg.norm(C[a] - C[b] - (C[i] - C[j]))
                near.append((q, i == j))
                if q < best:
                    best, opt = q, (i, j)
        if opt is None:
            raise Ambiguous("too few codes")
        near.sort()
        if len(near) > 1 and near[1][0] - near[0][0] < 1e-9 * near[1][0] and \
                not (near[0][1] and near[1][1]):
            raise Ambiguous("equal differences")
        for o in opt:
            for x in nb[o]:
                share[a, o, int(x)] += 1
    Z = np.array([C[a] + D.A[x] - C[o] for a, o, x in share])
    w = np.array(list(share.values()), dtype=float)
    # the same place may be reached in several ways
    first = np.argmax(dist(Z, Z) <= 1e-6 * np.abs(Z - Z.mean(axis=0)).max(), axis=1)
    return Seg(Z, Z, w / w.sum(), [int(i) for i in first])


def gaussian_smote(D):
    mu, sd = D.X.mean(axis=0), D.X.std(axis=0)
    Z = (D.A - mu) / sd
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    pr = pairs(knn(Z, Z, k, True))
    return seg_of(D.A, D.A, pr, uniform(len(pr)))


class Pred:
    """membership decided by a function: samples -> boolean array"""

    def __init__(self, fn):
        self.fn, self.w = fn, None


def minmax(X):
    lo, hi = X.min(axis=0), X.max(axis=0)
    if np.any(hi - lo <= 0):
        raise Ambiguous("constant feature")
    return (X - lo) / (hi - lo)


def standard(X):
    if np.any(X.std(axis=0) <= 0):
        raise Ambiguous("constant feature")
    return (X - X.mean(axis=0)) / X.std(axis=0)


def all_pairs(D):
    n = len(D.A)
    return seg_of(D.A, D.A, [(i, j) for i in range(n) for j in range(i, n)])


def nt_smote(D):
    k = min(len(D.A), D.p["ss_params"]["n_dim"]) - 1
    nb = knn(D.A, D.A, k, True)

    def inside(S):
        ok = np.zeros(len(S), bool)
        for i, row in enumerate(nb):
            V = np.vstack([D.A[i], D.A[row]])
            sc = max(np.abs(V - V[0]).max(), np.abs(V).max() * 1e-6)
            # barycentric coordinates
            M = np.vstack([(V - V[0]).T / sc, np.ones(len(V))])
            for t in np.where(~ok)[0]:
                b = np.append((S[t] - V[0]) / sc, 1.0)
                _, res = nnls(M, b)
                ok[t] = res <= 1e-6
        return ok
    return Pred(inside)


def smmo(D):
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    M = np.mean(D.A[knn(D.A, D.A, k, True)], axis=1)
    import importlib
    import warnings
    votes = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for mod, cls, kw in D.p["ensemble"]:
            c = getattr(importlib.import_module(mod), cls)(**kw)
            try:
                votes.append(c.fit(D.X, D.y).predict(D.X) == D.mn)
            except Exception:
                raise Ambiguous("classifier")
    wrong = np.where(np.mean(votes, axis=0)[D.ismin] <= 0.5)[0]
    if len(wrong) < 2:
        return None
    return Seg(M[wrong], D.A[wrong], uniform(len(wrong)))


def and_smote(D):
    K = min(len(D.A), D.p["K"])
    if K < 2:
        return None
    nb = knn(D.A, D.X, K - 1, True)
    kap = []
    for i, row in enumerate(nb):
        row = np.concatenate([[D.imin[i]], row])
        prec, rm, rj = [], set(), set()
        for t in range(1, len(row)):
            if not D.ismin[row[t]]:
                continue
            lo = np.minimum(D.A[i], D.X[row[t]])
            hi = np.maximum(D.A[i], D.X[row[t]])
            for q in row[:t + 1]:
                if np.all(D.X[q] >= lo) and np.all(D.X[q] <= hi):
                    (rm if D.ismin[q] else rj).add(int(q))
            prec.append(len(rm) / (len(rm) + len(rj)))
        dif = np.diff(prec)
        if len(dif) > 1 and np.sum(np.abs(dif - dif.min()) < 1e-12) > 1 and \
                np.argmin(dif) != np.where(np.abs(dif - dif.min()) < 1e-12)[0][0]:
            raise Ambiguous("rounding")
        kap.append(0 if len(dif) == 0 else int(np.argmin(dif)) + 2)
    if sum(kap) == 0:
        return None
    nn = knn(D.A, D.A, max(kap), True)
    pr = [(i, int(j)) for i in range(len(nn)) for j in nn[i][:kap[i]]]
    return seg_of(D.A, D.A, pr, uniform(len(pr)))


def nras(D):
    Z = minmax(D.X)
    lr = LogisticRegression(solver="lbfgs", random_state=D.rs).fit(Z, D.y)
    pp = lr.predict_proba(Z)[:, list(lr.classes_).index(D.mn)]
    W = np.column_stack([Z, pp])
    k = min(len(W) - 1, D.p["n_neighbors"])
    nb = knn(W[D.ismin], W, k, True)
    t = np.sum(D.ismin[nb], axis=1)
    keep = np.where(t >= D.p["t"] * (k + 1))[0]
    if len(keep) <= 1:
        return None
    D.start = len(D.B) + len(keep)
    pr = pairs(nb[keep], keep)
    return Seg([D.A[i] for i, _ in pr], [D.X[j] for _, j in pr], uniform(len(pr)),
               [(min(int(D.imin[i]), j), max(int(D.imin[i]), j)) for i, j in pr])


def kept(R, G, D, accept, name):
    """generated by G and kept by accept, as long as enough of the samples are"""
    rate = np.mean(accept(G.draw(2000, np.random.RandomState(0))))
    if D.n >= 20 and rate > 0.25:
        def draw(n, rng):
            Z = G.draw(int(1.2 * n / rate), rng)
            return Z[accept(Z)]
        R.like, R.also = Like(draw, m=15000), accept
    return R


def lee(D):
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    pr = pairs(knn(D.A, D.A, k, True))
    kk = min(len(D.A), D.p["n_neighbors"])

    def accept(Z):
        o = np.argsort(dist(Z, D.X), axis=1, kind="stable")[:, :kk]
        return np.sum(~D.ismin[o], axis=1) / D.p["n_neighbors"] < \
            D.p["rejection_level"]
    return kept(seg_of(D.A, D.A, pr), seg_of(D.A, D.A, pr, uniform(len(pr))), D,
                accept, "Lee")


def supervised(D):
    import importlib
    mod, cls, kw = D.p["classifier"]
    c = getattr(importlib.import_module(mod), cls)(**kw)
    if "random_state" not in kw or kw["random_state"] is None:
        return all_pairs(D)
    c.fit(D.X, D.y)
    col = list(c.classes_).index(D.mn)
    n = len(D.A)
    # any two different samples
    pr = [(i, j) for i in range(n) for j in range(n) if i != j]

    def accept(Z):
        q = c.predict_proba(Z)[:, col]
        return (q >= D.p["th_lower"]) & (q <= D.p["th_upper"])
    return kept(seg_of(D.A, D.A, pr), seg_of(D.A, D.A, pr, uniform(len(pr))), D,
                accept, "Supervised_SMOTE")


def ismote(D):
    n = int((len(D.B) - len(D.A)) / 2 + 0.5)
    m = dist(D.B, D.A).mean(axis=1)
    o = np.argsort(-m, kind="stable")
    if len(o) > 1 and np.min(np.abs(np.diff(m[o]))) < 1e-9 * m.max():
        raise Ambiguous("distance ties")
    X = np.vstack([D.B[o[n:]], D.A])
    nmaj = len(X) - len(D.A)
    D.start = len(X)
    k = min(len(X) - 1, D.p["n_neighbors"])
    w = D.p["minority_weight"]
    P, Q, keys = [], [], []
    for i, row in enumerate(knn(D.A, X, k, True)):
        for j in row:
            P.append(D.A[i])
            Q.append(D.A[i] + (w if j >= nmaj else 1 - w) * (X[j] - D.A[i]))
            a, b = nmaj + i, int(j)
            keys.append((min(a, b), max(a, b)))
    return Seg(P, Q, uniform(len(P)), keys)


def soi_cj(D):
    nb = np.hstack([D.imin[:, None], knn(D.A, D.X, len(D.A) - 1, True)])
    cl = []
    for row in nb:
        c = set()
        for j in row:
            if not D.ismin[j]:
                break
            c.add(int(j))
        cl.append(c)
    again = True
    while again:
        again = False
        for a in range(len(cl)):
            for b in range(a + 1, len(cl)):
                common = cl[a] & cl[b]
                if not common:
                    continue
                again = True
                la, lb = sorted(cl[a]), sorted(cl[b])
                M = dist(D.X[la], D.X[lb])
                i, j = np.unravel_index(np.argmax(M), M.shape)
                mid = (D.X[la[i]] + D.X[lb[j]]) / 2
                r = M[i, j] / 2
                d = np.linalg.norm(D.X - mid, axis=1)
                edge = np.abs(d - r) < 1e-9 * max(r, 1e-300)
                ins = (d < r) & ~edge
                if edge.sum() > 2:
                    raise Ambiguous("on the sphere")
                m, t = np.sum(ins & D.ismin), np.sum(ins)
                # rounding decides whether the end points (minority) count
                v = [m + e > (t + e) / 2 for e in range(edge.sum() + 1)]
                if len(set(v)) > 1:
                    raise Ambiguous("end points decide")
                if v[0]:
                    cl[a], cl[b] = cl[a] | cl[b], set()
                elif len(cl[a]) > len(cl[b]):
                    cl[b] = cl[b] - common
                else:
                    cl[a] = cl[a] - common
        cl = [c for c in cl if c]
    cl = [sorted(c) for c in cl if len(c) > 2]
    if not cl:
        return None
    return boxes([corners(D.X[a], D.X[b]) for c in cl
                  for a, b in itertools.combinations(c, 2)], D.d,
                 [2.0 / (len(c) - 1) for c in cl
                  for _ in itertools.combinations(c, 2)])


def single_linkage(DD, stop):
    """merge the closest clusters until stop(number of clusters, distance)"""
    cl = [[i] for i in range(len(DD))]
    DD = DD.copy()
    np.fill_diagonal(DD, np.inf)
    while len(cl) > 1:
        a, b = np.unravel_index(np.argmin(DD), DD.shape)
        a, b = min(a, b), max(a, b)
        if stop(len(cl), DD[a, b]):
            break
        cl[a] = cl[a] + cl[b]
        del cl[b]
        DD[a] = np.minimum(DD[a], DD[b])
        DD[:, a] = DD[a]
        DD = np.delete(np.delete(DD, b, axis=0), b, axis=1)
        np.fill_diagonal(DD, np.inf)
    return [sorted(c) for c in cl]


def cbso(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    w = np.sum(~D.ismin[knn(D.A, D.X, k, True)], axis=1).astype(float)
    w = w / w.sum() if w.sum() > 0 else uniform(len(w))
    DD = dist(D.A, D.A)
    Z = DD + np.where(np.eye(len(DD)), np.inf, 0)
    T = Z.min(axis=1).mean() * D.p["C_p"]
    if np.min(np.abs(Z - T)) < 1e-9 * T:
        raise Ambiguous("distance on the border")
    cl = single_linkage(DD, lambda n, d: d > T)
    return in_clusters(D, [np.array(c) for c in cl], w)


def cure(D):
    n = D.p["n_clusters"]
    if len(D.A) - n >= n:
        raise Ambiguous("random removals")
    Z = minmax(D.X)[D.ismin]
    knn(Z, Z, 1, True)
    DD = dist(Z, Z)
    cl = [c for c in single_linkage(DD, lambda k, d: k <= n)
          if len(c) >= D.p["noise_th"]]
    if not cl:
        return None
    P, Q, W, keys = [], [], [], []
    for c in cl:
        for i in c:
            P.append(D.A[c].mean(axis=0))
            Q.append(D.A[i])
            W.append(1.0 / len(cl) / len(c))
            keys.append((tuple(c) if len(c) == 2 else tuple(c) + (i,)))
    return Seg(P, Q, W, keys)


def vis_rst(D):
    X = standard(D.X)
    y = D.ismin.copy()
    k = min(len(X), D.p["n_neighbors"] + 1) - 1
    nb = knn(X, X, k, True)
    new = y | np.any(y[nb], axis=1)
    if np.sum(~new) <= np.sum(new):
        return None
    ids = np.where(new)[0]
    m = np.sum(~new[nb[ids]], axis=1)
    lab = np.where(m == k, "N", np.where(m < k / 2, "S", "D"))
    if np.all(lab == "N"):
        return None
    kk = min(len(ids) - 1, D.p["n_neighbors"])
    nn = knn(X[ids], X[ids], kk, True)
    safe, dan = np.where(lab == "S")[0], np.where(lab == "D")[0]
    pr = []
    if len(safe) == 0:
        pr = pairs(nn)
    else:
        high = len(dan) > 0.3 * len(ids)
        copies, base = (dan, safe) if high else (safe, dan)
        pr = [(int(i), int(i)) for i in copies] + pairs(nn[base], base)
    R = seg_of(D.X[ids], D.X[ids], pr)
    if len(safe) == 0:
        w = uniform(len(pr))
    elif len(base) == 0 or len(copies) == 0 or D.n < 250:
        return R
    else:
        t = len(base) + len(copies)
        w = np.append(np.repeat(1.0 / t, len(copies)), np.repeat(
            1.0 / t / nn.shape[1], len(pr) - len(copies)))
    gen_ = Seg(R.P, R.Q, w)

    def draw(n, rng):
        """samples with a majority sample around them are dropped"""
        out, tot = [], 0
        for _ in range(40):
            Z = gen_.draw(n, rng)
            z = (Z - D.X.mean(axis=0)) / D.X.std(axis=0)
            o = np.argsort(dist(z, X), axis=1, kind="stable")[:, 1:k + 1]
            Z = Z[np.all(new[o], axis=1)]
            out.append(Z)
            tot += len(Z)
            if tot >= n:
                return np.vstack(out)[:n]
        raise Ambiguous("few samples kept")
    R.like = Like(draw)
    return R


def amsr(D):
    from sklearn.ensemble import IsolationForest
    A, m = D.A, D.A.mean(axis=0)
    f = IsolationForest(n_estimators=100, random_state=D.rs).fit(D.X)
    s = f.decision_function(D.X)[D.ismin]
    if D.p["topology"] == "star":
        sm = f.decision_function(m[None])[0]
        steps = [(a, m, sm - t) for a, t in zip(A, s)]
        span = max(s.max(), sm) - min(s.min(), sm)
    else:
        span = s.max() - s.min()
        if D.p["topology"] == "bus":
            q = [(i + 1, i) for i in range(len(A) - 1)]
        else:
            q = itertools.product(range(len(A)), repeat=2)
        steps = [(A[i], A[j], s[j] - s[i]) for i, j in q]
    lh = []
    for a, b, g in steps:
        # away from the less, towards the more anomalous of the two
        g = g / span if span > 0 else g
        lo, hi = (g, 1) if g >= 0 else (0, 1 + g)
        lh.append(corners(a + lo * (b - a), a + hi * (b - a)))
    return boxes(lh, D.d, uniform(len(lh)))


def de_over(D):
    """a multiple of the difference of two neighbors is added to some of the
    components, at least to one"""
    k = min(len(D.A) - 1, D.p["n_neighbors"])
    if k < 2:
        return None
    D.select = "new"
    tr = np.array([(i, a, b) for i, row in enumerate(knn(D.A, D.A, k, True))
                   for a in row for b in row if a != b])
    B, V = D.A[tr[:, 0]], D.A[tr[:, 1]] - D.A[tr[:, 2]]
    sc = np.abs(D.A - D.A.mean(axis=0)).max() + 1e-6 * np.abs(D.A).max()
    Vs = np.where(np.abs(V) > 1e-9 * sc, V, 1.0)

    def inside(S):
        ok = np.zeros(len(S), bool)
        for t, x in enumerate(S):
            W = x - B
            still = np.abs(W) <= 1e-9 * sc
            moved = ~still & (np.abs(V) > 1e-9 * sc)
            q = W / Vs
            hi = np.where(moved, q, -np.inf).max(axis=1)
            lo = np.where(moved, q, np.inf).min(axis=1)
            bad = np.any(~still & ~moved, axis=1)
            # the step is the same for all of the components
            e = 1e-7 * sc / np.where(moved, np.abs(V), np.inf).min(axis=1)
            ok[t] = np.any(~bad & ((hi - lo <= e) | ~moved.any(axis=1)) & (
                (lo >= -e) & (hi <= 1 + e) | ~moved.any(axis=1)))
        return ok
    return Pred(inside)


def ccr(D):
    E = D.p["energy"] * D.d ** D.p["scaling"]
    D1 = np.sum(np.abs(D.A[:, None] - D.B[None]), axis=2)
    if D1.min() < 1e-12:
        raise Ambiguous("coinciding classes")
    R = []
    for row in D1:
        used = row.max() + np.sum(row.max() - row)
        if E >= used * (1 - 1e-9):
            # nothing is left to expand to: the rest is shared by the spheres
            R.append(row.max() + (E - used) / len(row))
            continue
        lo, hi = 0.0, row.max()
        for _ in range(200):
            r = (lo + hi) / 2
            lo, hi = (r, hi) if r + np.sum(np.clip(r - row, 0, None)) < E else \
                (lo, r)
        R.append(lo)
    R = np.array(R)
    if R.min() <= 0:
        raise Ambiguous("no energy")
    number = D.n / len(R) * R.mean() / R
    if np.any(np.abs(number % 1 - 0.5) < 1e-6):
        raise Ambiguous("rounded number")
    number = np.round(number)
    if number.sum() == 0:
        return None

    def draw(n, rng):
        """the radius is spent component by component, in random order"""
        i = rng.choice(len(R), n, p=number / number.sum())
        u = 2 * rng.random_sample((n, D.d)) - 1
        Z = np.zeros((n, D.d))
        for t in range(D.d):
            left = R[i] - (np.abs(Z[:, t - 1]) if t else 0)
            Z[:, t] = left * u[:, t]
        return D.A[i] + np.take_along_axis(
            Z, np.argsort(rng.random_sample((n, D.d)), axis=1), axis=1)
    use = number > 0
    B = Box((D.A - R[:, None])[use], (D.A + R[:, None])[use])
    B.like = Like(draw)
    return B


def symprod(D):
    def inl(Z):
        q = np.where(Z.std(axis=0) > 0, Z.std(axis=0), 1.0)
        z = np.abs((Z - Z.mean(axis=0)) / q).max(axis=1)
        if np.min(np.abs(z - D.p["std_outliers"])) < 1e-9:
            raise Ambiguous("outlier by rounding")
        return z < D.p["std_outliers"]
    ma, mb = inl(D.A), inl(D.B)
    A = D.A[ma] if ma.any() else D.A
    B = D.B[mb] if mb.any() else D.B
    Z = standard(np.vstack([A, B]))
    ZA, ZB = Z[:len(A)], Z[len(A):]
    if len(A) < 2 or len(B) < 2:
        raise Ambiguous("too few left")

    def closeness(M):
        c = 1.0 / dist(M, M).sum(axis=1)
        s = c.max() - c.min()
        if 1e-11 < s < 1e-9:
            raise Ambiguous("rounding")
        return (c - c.min()) / s if s >= 1e-10 else np.zeros(len(c))
    ca, cb = closeness(ZA), closeness(ZB)
    k = min(D.p["k_neighbors"], len(ZA) - 1)
    if k > len(ZB):
        raise Ambiguous("more neighbors than majority samples")
    na, nb = knn(ZA, ZA, k, True), knn(ZA, ZB, k)
    DA, DB = dist(ZA, ZA), dist(ZA, ZB)
    ta = np.mean(ca[na] / (np.take_along_axis(DA, na, axis=1) + 1), axis=1)
    tb = np.mean(cb[nb] / (np.take_along_axis(DB, nb, axis=1) + 1), axis=1)
    c0 = th = D.p["cutoff_threshold"]
    while True:
        if np.min(np.abs(ta - tb * th)) < 1e-12:
            raise Ambiguous("threshold by rounding")
        if np.sum(ta >= tb * th) > 1:
            break
        th -= c0 / 10.0
    sel = ta >= tb * th
    A, ZA = A[sel], ZA[sel]
    m = min(D.p["m_neighbors"], len(A) - 4)
    if m < 2:
        return None
    phi = (ta[sel] + 1) / (tb[sel] + 1)
    if phi.max() - phi.min() < 1e-12:
        raise Ambiguous("equal symmetry")
    nn = knn(ZA, ZA, m + 2, True)
    use = [i for i in range(len(A)) if phi[i] > phi.min()]
    cf = ca[sel]
    combos = np.array(list(itertools.combinations(range(m + 3), m)))
    full = np.hstack([np.arange(len(A))[:, None], nn])
    B = boxes([corners(A[i], *A[nn[i]]) for i in use], D.d)

    def draw(n, rng):
        p = (phi - phi.min()) / (phi - phi.min()).sum()
        i = rng.choice(len(A), n, p=p)
        mem = np.take_along_axis(full[i], combos[rng.randint(
            len(combos), size=n)], axis=1)
        mem = np.hstack([mem, i[:, None]])
        g = rng.dirichlet([m + 2.0] * (m + 1), size=n) * cf[mem]
        tot = g.sum(axis=1, keepdims=True)
        return np.sum((g / np.where(tot > 0, tot, 1))[:, :, None] * A[mem], axis=1)
    if np.sum(cf > 0) > 3 and np.min(cf[cf > 0]) > 1e-12:
        B.like = Like(draw)
    return B


def v_synth(D):
    X = np.vstack([D.X, D.X.min(axis=0) - 0.1 * np.abs(D.X.min(axis=0))])
    if D.d > D.p["n_components"]:
        raise Ambiguous("projected")
    ev = np.linalg.eigvalsh(np.cov(X, rowvar=False))
    if ev[0] / ev.sum() < 0.02:
        raise Ambiguous("projected")
    if dist(D.X, D.X)[~np.eye(len(D.X), dtype=bool)].min() < 0.005:
        raise Ambiguous("samples too close")

    def nearest_minority(S):
        a, b = dist(S, D.A).min(axis=1), dist(S, D.B).min(axis=1)
        return a <= b + 1e-6 * np.abs(D.X - D.X.mean(axis=0)).max()
    return Pred(nearest_minority)


def mdo(D):
    k1 = min(int(D.p["K2"] * D.p["K1_frac"]), len(D.X))
    nb = knn(D.A, D.X, min(D.p["K2"], len(D.X) - 1), True)
    sel = np.sum(D.ismin[nb], axis=1) >= k1
    if not sel.any() or np.sum(D.ismin[nb[sel]]) == 0:
        return None if not sel.any() else Pred(lambda S: np.ones(len(S), bool))
    Z = D.A[sel]
    mu = Z.mean(axis=0)
    Z = Z - mu
    U, s, Vt = np.linalg.svd(Z, full_matrices=False)
    V = np.maximum(s ** 2 / len(Z), 0.001)
    al = np.max(np.sum((Z @ Vt.T) ** 2 / V, axis=1))
    if s[-1] <= 1e-6 * s[0] or np.any(np.diff(s) > -1e-6 * s[0]):
        raise Ambiguous("principal directions")
    half = np.sqrt(np.maximum(al * V, 0.001))
    sc = np.abs(Z).max() + np.abs(mu).max() * 1e-6

    def inside(S):
        T = (S - mu) @ Vt.T
        return np.all(np.abs(T) <= half * (1 + 1e-9) + 1e-6 * sc, axis=1) & (
            np.abs(T @ Vt - (S - mu)).max(axis=1) <= 1e-6 * sc)
    return Pred(inside)


def sso(D):
    """boxes of half width Q around the minority samples available when the
    batch is generated"""
    n = D.n
    per = max(1, int(n / D.p["n_iter"]))

    def inside(S):
        X, A = D.X, D.A
        ok = np.zeros(len(S), bool)
        if len(S) != per * D.p["n_iter"]:
            return ok
        for i in range(D.p["n_iter"]):
            B = S[i * per:(i + 1) * per]
            k = min(D.p["n_neighbors"] + 1, len(X))
            r = np.sort(dist(A, X), axis=1)[:, k - 1]
            Q = np.mean(r) / np.sqrt(D.d)
            dv = np.abs(B[:, None, :] - A[None]).max(axis=2).min(axis=1)
            ok[i * per:(i + 1) * per] = dv <= Q * (1 + 1e-9) + 1e-9 * np.abs(A).max()
            X, A = np.vstack([X, B]), np.vstack([A, B])
        return ok
    return Pred(inside)


def rose(D):
    h = (4.0 / ((D.d + 1) * len(D.X))) ** (1.0 / (D.d + 4))
    return Mix(D.A, D.A.std(axis=0) * h)


def rwo(D):
    return Mix(D.A, D.A.std(axis=0) / math.sqrt(len(D.A)))


def smotewb(D):
    from sklearn.tree import DecisionTreeClassifier
    X, y = D.X, D.y
    n = len(X)
    w = np.full(n, 1.0 / n)
    for _ in range(D.p["n_iters"]):
        t = DecisionTreeClassifier(random_state=D.rs, max_depth=D.p["max_depth"],
                                   min_samples_split=3)
        bad = t.fit(X, y, sample_weight=w).predict(X) != y
        e = w[bad].sum()
        if e == 0:
            w = np.zeros(n)
            break
        if e >= 1:
            raise Ambiguous("boosting")
        w = np.where(bad, w * math.sqrt((1 - e) / e), w)
        w = w / w.sum()
    th = np.where(D.ismin, 2 * len(D.B), 2 * len(D.A)) / n ** 2
    if np.any(np.abs(w - th) < 1e-9):
        raise Ambiguous("noise threshold")
    noise = w > th
    good = np.where(~noise)[0]
    if len(good) == 0:
        return smote(D, 5)
    kmax = len(D.B) // len(D.A)
    out, used = [], 0
    for i in D.imin:
        cand = good[good != i]
        o = cand[knn(X[[i]], X[cand], len(cand))[0]]
        k = 0
        while k < min(len(o), kmax) and D.ismin[o[k]]:
            k += 1
        if k > 0:
            out.append((i, list(o[:k])))
        elif not noise[i]:
            out.append((i, [i]))
    if not out:
        return smote(D, 5)
    pr, ws = [], []
    for i, nb in out:
        pr += [(int(i), int(j)) for j in nb]
        ws += [1.0 / len(out) / len(nb)] * len(nb)
    R = seg_of(X, X, pr, ws)
    R.simplex = False  # uniform between the two points
    return R


def somo(D):
    import minisom
    p = D.p
    som = minisom.MiniSom(p["n_grid"], p["n_grid"], D.d, sigma=p["sigma"],
                          learning_rate=p["learning_rate"], random_seed=3)
    som.train_random(D.X, p["n_iter"])
    cells = {}
    for i, x in enumerate(D.X):
        cells.setdefault(tuple(int(v) for v in som.winner(x)), []).append(i)
    dens, mem = {}, {}
    for c, idx in cells.items():
        m = [i for i in idx if D.ismin[i]]
        if (len(idx) - len(m) + 1) / (len(m) + 1) < 1.0:
            mem[c] = m
            v = np.mean(dist(D.X[m], D.X[m]))
            dens[c] = len(m) / v ** 2 if len(m) > 1 and v > 0 else 10
    if not dens:
        return None
    pd = {(a, b): dens[a] + dens[b] for a in dens for b in dens
          if abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1}
    n_in = int(D.n / 2) if pd else D.n
    pr, w = [], []
    tot = sum(1 / v for v in dens.values())
    for c, m in mem.items():
        pw = n_in / D.n / dens[c] / tot
        prs = [(i, j) for i in m for j in m if i != j] or [(m[0], m[0])]
        pr += prs
        w += [pw / len(prs)] * len(prs)
    tot = sum(1 / v for v in pd.values())
    for (a, b), v in pd.items():
        prs = [(i, j) for i in mem[a] for j in mem[b]]
        pr += prs
        w += [(D.n - n_in) / D.n / v / tot / len(prs)] * len(prs)
    return seg_of(D.X, D.X, pr, w)


def trim(D):
    def score(y):
        return np.sum(y) ** 2 / len(y)

    def split(X, y, border):
        best, cut = 0.0, None
        for f in range(X.shape[1]):
            o = np.argsort(X[:, f], kind="stable")
            v, l = X[o, f], y[o]
            for j in range(len(v) - 1):
                if v[j] == v[j + 1] or (border and l[j] == l[j + 1]):
                    continue
                g = max(score(l[:j + 1]), score(l[j + 1:]))
                if g > best:
                    best, cut = g, (f, v[j])
        if cut is None or best <= score(y):
            return None
        left = X[:, cut[0]] <= cut[1]
        return [(X[m], y[m]) for m in (left, ~left) if y[m].any()]

    leafs, seeds = [(D.X, D.ismin)], []
    while leafs:
        nxt = []
        for X, y in leafs:
            if len(X) < 2:
                continue
            s = split(X, y, True)
            if s is None:
                s = split(X, y, False)
                if s is None:
                    seeds.append((X, y))
                    continue
            nxt += s
        leafs = nxt
    prec = [y.mean() for _, y in seeds]
    t = D.p["min_precision"]
    if not any(p > t / 10 for p in prec):
        return None
    while not any(p > t for p in prec):
        t = D.p["min_precision"] * 0.9 if t == D.p["min_precision"] else t * 0.9
    if any(abs(p - t) < 1e-9 for p in prec):
        raise Ambiguous("precision")
    A = np.vstack([X[y] for (X, y), p in zip(seeds, prec) if p > t])
    k = min(len(A) - 1, D.p["n_neighbors"])
    if k == 0:
        return seg_of(A, A, [(0, 0)])
    pr = pairs(knn(A, A, k, True))
    return seg_of(A, A, pr, uniform(len(pr)))


def gasmote(D):
    R = smote(D)
    return Seg(R.P, R.Q)


def asmobd(D):
    Z = standard(D.X)
    A = Z[D.ismin]
    p = {"eps": D.p["eps"]}
    for t in ("T_12", "t_12"):
        p[t[0] + "_1"], p[t[0] + "_2"] = D.p[t]
    ms, eta = D.p["min_samples"], D.p["eta"]
    for _ in range(4):
        c, r = optics(A, max(2, min(len(A) - 1, ms)), p["eps"])
        with np.errstate(all="ignore"):
            ca, ra = c.mean() * p["t_1"], r.mean() * p["t_2"]
        noise = ((c > p["T_1"]) & (r > p["T_2"])) | ((c > ca) & (r > ra))
        f = np.isfinite(c) & np.isfinite(r)
        if np.any(np.abs(c[f] - p["T_1"]) < 1e-9) or np.any(
                np.abs(r[f] - p["T_2"]) < 1e-9) or np.any(
                np.abs(c[f] - ca) < 1e-9) or np.any(np.abs(r[f] - ra) < 1e-9):
            raise Ambiguous("noise threshold")
        if np.sum(~noise) >= 2:
            break
        p = {k: v * 1.5 for k, v in p.items()}
    g = np.where(~noise)[0]
    if len(g) <= 2:
        return None
    nb = knn(A[g], A[g], min(len(g) - 1, ms), True)
    pr = pairs(nb)
    R = seg_of(D.A[g], D.A[g], pr)
    # the shares; the sample which gives the core distance is at its border
    DX = dist(A, Z)
    if not np.isfinite(c).all():
        return R
    at = np.abs(DX - c[:, None]) < 1e-9 * np.maximum(c[:, None], 1e-300)
    if np.any(at[:, ~D.ismin]):
        raise Ambiguous("majority sample at the core distance")
    out, raw = [], []
    for strict in (False, True):
        ins = np.where(at, not strict, DX < c[:, None])
        n = ins.sum(axis=1)
        maj = np.sum(ins[:, ~D.ismin], axis=1) / n
        mino = n - maj - 1
        w = eta * c + (1 - eta) * maj
        if D.p["smoothing"] == "sigmoid":
            with np.errstate(all="ignore"):
                q = np.where(mino == 0, np.inf, maj / np.where(mino == 0, 1, mino))
                w = w - np.abs(2 / (1 + np.exp(-D.p["a"] * q)) - 1)
        else:
            w = eta * w + (1 - eta) * mino / D.n
        w = np.clip(np.nan_to_num(w[g], posinf=0, neginf=0), 0, None)
        if 0 < w.sum() < 1e-9:
            return R
        raw.append(w)
        w = w / w.sum() if w.sum() > 0 else uniform(len(g))
        out.append((D.start, Seg(R.P, R.Q, np.repeat(w / nb.shape[1], nb.shape[1]),
                                 R.keys)))
    # rounding may decide for every sample on its own: no statement then
    if not np.allclose(raw[0], raw[1], atol=1e-3 * max(raw[0].max(), raw[1].max())):
        return R
    return out[0][1]


def a_suwo(D):
    from sklearn.cluster import AgglomerativeClustering
    k = D.p["n_neighbors"]
    nb = knn(D.X, D.X, min(k, len(D.X) - 1), True)
    noise = np.all(D.ismin[nb] != D.ismin[:, None], axis=1)
    A, B = D.X[D.ismin & ~noise], D.X[~D.ismin & ~noise]
    if len(A) == 0 or len(B) == 0:
        return None
    D.start = int(np.sum(~noise))
    nc = min(len(B), D.p["n_clus_maj"])
    lab = AgglomerativeClustering(n_clusters=nc).fit(B).labels_ if len(B) > 1 \
        else np.zeros(1, int)
    d = dist(A, A)
    u = d[np.triu_indices(len(A), 1)]
    if len(u) > 1 and np.min(np.diff(np.sort(u))) < 1e-9 * u.max():
        raise Ambiguous("distance ties")
    T = np.mean(np.median(d, axis=1)) * D.p["c_thres"]
    if len(u) and np.min(np.abs(u - T)) < 1e-9 * u.max():
        raise Ambiguous("threshold")
    db = dist(A, B)
    cl = [[i] for i in range(len(A))]
    # single linkage; the distances are kept like the technique does it: a
    # separated pair is at distance infinity until one of the two is merged
    n = len(A)
    M = d.copy()
    np.fill_diagonal(M, np.inf)
    maj = np.array([[db[i, lab == c].min() for c in range(nc)] for i in range(n)])
    while len(cl) > 1:
        v = M.min()
        if v > T or not np.isfinite(v):
            break
        i, j = [int(t) for t in np.argwhere(M == v)[0]]
        if np.any((maj[i] < v) & (maj[j] < v)):
            M[i, j] = M[j, i] = np.inf
            continue
        cl[i] = cl[i] + cl[j]
        row = np.minimum(M[i], M[j])
        M[i], M[:, i] = row, row
        M = np.delete(np.delete(M, j, axis=0), j, axis=1)
        np.fill_diagonal(M, np.inf)
        maj[i] = np.minimum(maj[i], maj[j])
        maj = np.delete(maj, j, axis=0)
        del cl[j]
    pr, W, groups = [], [], []
    for t, c in enumerate(cl):
        m = min(len(c), k) - 1
        g = 1.0 / np.maximum(db[c].min(axis=1), 1e-300)
        g = np.minimum(g, g.mean())
        g = g / g.sum()
        q = [(i, i) for i in c] if m == 0 else \
            [(c[i], c[j]) for i, j in pairs(knn(A[c], A[c], m, True))]
        pr += q
        W += list(np.repeat(g / max(m, 1), max(m, 1)))
        groups += [t] * len(q)
    R = seg_of(A, A, pr, W)
    R.groups = np.array(groups)
    return R


class Either:
    """rounding decides which one of the rules applies: list of (number of rows
    before the generated ones, rule)"""

    def __init__(self, options):
        self.options = options


class Kernel:
    """normal distributions around the rows of M with covariance h * C, the
    width h being one of the listed ones; T maps samples into that space"""

    def __init__(self, M, C, widths, T):
        self.M, self.C, self.widths, self.T = M, C, widths, T

    def test(self, name, S):
        from scipy.stats import norm
        if len(S) < 100:
            return False
        S, back = self.T(S), None
        n, d = S.shape
        rng = np.random.RandomState(0)
        A = np.vstack([np.eye(d), rng.normal(size=(3, d))])
        crit = math.sqrt(math.log(2 / 1e-12) / 2 / n)
        best = np.inf
        for h in self.widths:
            worst = 0.0
            for a in A:
                m, sd = self.M @ a, math.sqrt(h * (a @ self.C @ a))
                z = np.sort(S @ a)
                F = np.mean(norm.cdf((z[:, None] - m[None]) / sd), axis=1)
                worst = max(worst, np.max(np.arange(1, n + 1) / n - F),
                            np.max(F - np.arange(n) / n))
            best = min(best, worst)
        if best > crit:
            raise Violation(
                "%s: %d generated samples are not distributed around the minority "
                "samples with a multiple of their covariance (off by %.3f, limit "
                "%.3f)" % (name, n, best, crit), sig=name + " distribution")
        return True


def pdfos(D):
    Z = standard(D.X)
    A = Z[D.ismin]
    w, V = np.linalg.eigh(np.cov(A, rowvar=False))
    if np.min(np.abs(w - 0.02)) < 1e-6:
        raise Ambiguous("eigenvalue at the limit")
    V = V[:, w > 0.02]
    if V.shape[1] == 0:
        raise Ambiguous("no variance")
    mu, sd, ma = D.X.mean(axis=0), D.X.std(axis=0), A.mean(axis=0)
    M = (A - ma) @ V
    C = np.atleast_2d(np.cov(M, rowvar=False))
    if np.linalg.cond(C) > 1e6:
        raise Ambiguous("covariance")

    def T(S):
        W = (S - mu) / sd - ma
        R = W @ V
        if np.abs(R @ V.T - W).max() > 1e-6:
            raise Violation("PDFOS: samples leave the space of the minority class",
                            sig="PDFOS place")
        return R
    return Kernel(M, C, np.logspace(-5, 2, num=20), T)


def smote_pso(D):
    """the first generation of particles stays, around every minority support
    vector, within the distance from its nearest majority support vector, or
    where it was started towards one of the nearest of them"""
    from sklearn.svm import SVC
    from sklearn.preprocessing import StandardScaler
    if len(D.A) >= len(D.B):
        return None
    scaler = StandardScaler()
    Z = scaler.fit_transform(D.X)
    sv_ = SVC(kernel="rbf", probability=True, gamma="auto",
              random_state=D.rs).fit(Z, D.y).support_
    P, Q = Z[[i for i in sv_ if D.ismin[i]]], Z[[i for i in sv_ if not D.ismin[i]]]
    k = min(len(Q), D.p["k"])
    r = dist(P, Q).min(axis=1)
    nb = knn(P, Q, k)

    def fn(S):
        S = scaler.transform(S)
        n = len(P) * k
        ok = np.ones(len(S), bool)
        if len(S) < n:
            ok[:] = False
        for i in range(min(n, len(S))):
            a = P[i // k]
            first = a + D.p["eps"] * (Q[nb[i // k, i % k]] - a)
            ok[i] = np.linalg.norm(S[i] - a) <= r[i // k] + 1e-6 or \
                np.abs(S[i] - first).max() < 1e-6
        return ok
    return Pred(fn)


def lle(D):
    """samples are affine combinations (weights sum up to one) of k+1 minority
    samples"""
    k = min(D.p["n_neighbors"] + 1, len(D.A))
    n = len(D.A)
    if math.comb(n, k) > 4000:
        raise Ambiguous("too many subsets")
    sc = np.abs(D.A - D.A.mean(axis=0)).max()

    def fn(S):
        best = np.full(len(S), np.inf)
        for c in itertools.combinations(range(n), k):
            o = D.A[c[0]]
            U, s, V = np.linalg.svd(D.A[list(c[1:])] - o, full_matrices=False)
            V = V[s > 1e-9 * sc]
            W = S - o
            best = np.minimum(best, np.linalg.norm(W - (W @ V.T) @ V, axis=1))
        return best <= 1e-6 * np.maximum(sc, np.abs(S - D.A.mean(axis=0)).max(
            axis=1))
    return Pred(fn)


def mot2ld(D):
    import warnings
    from sklearn.manifold import TSNE
    X, n = D.X, len(D.A)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = TSNE(min(D.p["n_components"], D.d), random_state=D.rs,
                 perplexity=min(10, len(X) - 1), n_iter_without_progress=100,
                 n_iter=500, n_jobs=1).fit_transform(X).astype(float)
    A = T[D.ismin]
    DA, DX = dist(A, A), dist(A, T)
    k = min(n, D.p["k"] + 1) - 1
    nb = knn(A, T, k, True)
    cut = D.p["d_cut"]
    if n < 3:
        return None
    if cut == "auto":
        cut = np.sort(DX, axis=1)[:, 1].max()
    border = list(zip(*np.where(np.abs(DX - cut) < 1e-5 * cut)))
    if len(border) > 2:
        raise Ambiguous("distances at the limit")
    out = []
    # whether a point right at the limit counts depends on rounding
    for drop in itertools.product([False, True], repeat=len(border)):
        within = DX <= cut
        for b, d in zip(border, drop):
            within[b] = not d
        out.append(mot2ld_peaks(D, A, DA, nb, within.sum(axis=1)))
    return Either(out)


def mot2ld_peaks(D, A, DA, nb, rho):
    import scipy.signal
    n, none = len(D.A), (len(D.X), None)
    higher = np.where(rho[None, :] > rho[:, None], DA, np.inf).min(axis=1)
    delta = np.where(np.isfinite(higher), higher, DA.max())
    order = np.argsort(rho, kind="stable")
    peaks = np.array(scipy.signal.find_peaks_cwt(
        delta[order], widths=np.arange(1, int(np.rint(n / 2)))))
    if len(peaks) == 0:
        return none
    cen = A[order[peaks]]
    lab = knn(A, cen, 1)[:, 0]
    cnt = np.sum(D.ismin[nb], axis=1)
    noise = (rho == 1) | (cnt == 0)
    prob = np.where(noise, 0.0, cnt / rho)
    cl = [[i for i in range(n) if lab[i] == c and not noise[i]]
          for c in range(lab.max() + 1)]
    if prob.sum() == 0:
        return none
    return (len(D.X) - int(noise.sum()),
            in_clusters(D, [c for c in cl if c], prob / prob.sum()))


def kerneladasyn(D):
    """a random walk accepted by the density of normal distributions around the
    minority samples with majority neighbors stays near to one of them"""
    k = min(len(D.A), D.p["k"] + 1) - 1
    nb = knn(D.A, D.X, k, True)
    r = np.sum(~D.ismin[nb], axis=1)
    if np.sum(r > 0) < 2:
        return None
    C = np.atleast_2d(np.cov(D.A[r > 0], rowvar=False))
    if np.linalg.cond(C) > 5000:
        raise Ambiguous("covariance")
    lim = (9 + D.d / 2) * math.sqrt(D.p["h"])
    return Pred(lambda S: dist(S, D.A[r > 0]).min(axis=1) <= lim)


RULES = {
    "KernelADASYN": kerneladasyn,
    "PDFOS": pdfos, "SMOTE_PSO": smote_pso, "LLE_SMOTE": lle, "MOT2LD": mot2ld,
    "SMOTE": smote, "ADASYN": adasyn, "Borderline_SMOTE1": borderline1,
    "Borderline_SMOTE2": borderline2, "ANS": ans,
    "NRSBoundary_SMOTE": nrsboundary, "MSMOTE": msmote,
    "Safe_Level_SMOTE": safe_level, "LN_SMOTE": ln_smote,
    "SMOTE_OUT": smote_out, "SMOTE_Cosine": smote_cosine,
    "Selected_SMOTE": selected, "distance_SMOTE": distance_smote,
    "Random_SMOTE": random_smote, "ProWSyn": prowsyn, "MWMOTE": mwmote,
    "SDSMOTE": sdsmote, "MCT": mct, "Edge_Det_SMOTE": edge_det,
    "Assembled_SMOTE": assembled, "cluster_SMOTE": cluster_smote,
    "kmeans_SMOTE": kmeans_smote, "DBSMOTE": dbsmote, "SMOBD": smobd,
    "OUPS": oups, "G_SMOTE": g_smote, "SN_SMOTE": sn_smote, "ADOMS": adoms,
    "NDO_sampling": ndo, "LVQ_SMOTE": lvq, "Gaussian_SMOTE": gaussian_smote,
    "NT_SMOTE": nt_smote, "SMMO": smmo, "AND_SMOTE": and_smote, "NRAS": nras,
    "Lee": lee, "ISMOTE": ismote, "SOI_CJ": soi_cj, "CBSO": cbso,
    "CURE_SMOTE": cure, "VIS_RST": vis_rst, "SMOTE_AMSR": amsr,
    "DE_oversampling": de_over, "CCR": ccr, "SYMPROD": symprod,
    "V_SYNTH": v_synth, "polynom_fit_SMOTE_mesh": all_pairs,
    "Supervised_SMOTE": supervised, "MDO": mdo, "SSO": sso, "ROSE": rose,
    "RWO_sampling": rwo, "SMOTEWB": smotewb, "SOMO": somo,
    "CE_SMOTE": all_pairs, "TRIM_SMOTE": trim,
    "GASMOTE": gasmote, "ASMOBD": asmobd, "A_SUWO": a_suwo,
}
# no samples although the model has regions: further abort conditions that are
# not part of the rule
MAY_ABORT = {"SMOBD", "ANS", "NRSBoundary_SMOTE", "Assembled_SMOTE", "OUPS",
             "CE_SMOTE", "SMMO", "GASMOTE", "ASMOBD",
             "A_SUWO", "KernelADASYN", "MDO", "SMOTEWB", "SOMO", "TRIM_SMOTE",
             "VIS_RST", "PDFOS", "MOT2LD", "DE_oversampling", "CCR", "V_SYNTH"}
MANY = {"LLE_SMOTE": 200, "LVQ_SMOTE": 120, "LN_SMOTE": 300, "ADOMS": 300, "DBSMOTE": 300,
        "NDO_sampling": 300, "SMOTE_OUT": 300, "SMOTE_Cosine": 300,
        "NRSBoundary_SMOTE": 300, "ROSE": 12000, "RWO_sampling": 12000,
        "DE_oversampling": 400, "KernelADASYN": 100}


REPEAT = {"ISMOTE": 80}
# datasets on which the technique finds something to do
DS = {"VIS_RST": dict(kinds=["sep", "clusters", "skewed"], min_gap=20, max_gap=70),
      "SYMPROD": dict(min_n_min=7, max_n_min=20),
      "SMOBD": dict(min_n_min=6, max_n_min=20),
      "ASMOBD": dict(min_n_min=8, max_n_min=20),
      "NRAS": dict(kinds=["sep", "clusters", "gauss"], min_n_min=5),
      "SMMO": dict(kinds=["overlap", "boundary", "gauss"]),
      "kmeans_SMOTE": dict(kinds=["sep", "clusters", "gauss", "skewed"])}


@st.composite
def rule_case(draw, name):
    # the minority class (without ties) and more than two dimensions wherever
    # segments have to be told apart
    c = draw(over.over_case(name, ds={**dict(
        kinds=KINDS, labels=[[0, 1], [1, 0], [-1, 1], [7, 3]], min_n_min=3,
        max_n_min=14, max_gap=24, min_gap=1, max_d=4, min_d=2),
        **(DS.get(name, {}) if draw(st.booleans()) else {})},
        pk=dict(ss=False, metric=False, wide=True), entry=False))
    c["many"] = draw(st.integers(0, 2)) < 2
    if name == "Gaussian_SMOTE":
        c["params"]["ss_params"] = {"gaussian_component": {}}
    if name == "SMOBD" and draw(st.booleans()):
        c["params"]["max_eps"] = draw(st.sampled_from([2.0, 5.0, 20.0]))
    if name == "ASMOBD" and draw(st.booleans()):
        c["params"]["eps"] = draw(st.sampled_from([1.0, 3.0, 10.0]))
        c["params"]["T_12"] = draw(st.sampled_from([[1.0, 1.0], [2.0, 3.0]]))
    if name == "SOI_CJ":
        c["params"]["method"] = "interpolation"
    if name == "CURE_SMOTE":
        c["params"]["n_clusters"] = c["ds"]["n_min"] // 2 + \
            draw(st.integers(1, 3))
    return c


def in_segments(S, R):
    """boolean matrix sample x segment: sample lies on the segment"""
    sc = max(np.abs(R.P - R.P.mean(axis=0)).max() if len(R.P) else 0,
             np.abs(R.Q - R.P.mean(axis=0)).max(),
             np.abs(R.P).max() * 1e-6, 1e-300)
    Dv = R.Q - R.P
    n2 = np.sum(Dv * Dv, axis=1)
    out = np.zeros((len(S), len(R.P)), bool)
    for s in range(0, len(S), 200):
        Z = S[s:s + 200, None, :] - R.P[None]
        t = np.clip(np.einsum("ijk,jk->ij", Z, Dv) / np.where(n2 > 0, n2, 1), 0, 1)
        r = Z - t[:, :, None] * Dv[None]
        out[s:s + 200] = np.sqrt(np.sum(r * r, axis=2)) <= TOL * sc
    return out


def in_boxes(S, R):
    sc = max((R.hi.max(axis=0) - R.lo.min(axis=0)).max(),
             np.abs(R.hi).max() * 1e-6, 1e-300)
    ok = np.zeros(len(S), bool)
    for i, x in enumerate(S):
        ok[i] = np.any(np.all((x >= R.lo - TOL * sc) & (x <= R.hi + TOL * sc),
                              axis=1))
    return ok


def frequencies(name, hit, R):
    """compare how often each segment was used with its share; segments that
    share a key (the two directions) count together"""
    keys = sorted(set(R.keys))
    pos = {k: i for i, k in enumerate(keys)}
    col = np.array([pos[k] for k in R.keys])
    share = np.zeros(len(keys))
    np.add.at(share, col, R.w)
    M = np.zeros((len(hit), len(keys)), bool)
    for j in range(len(R.keys)):
        M[:, col[j]] |= hit[:, j]
    one = M.sum(axis=1) == 1
    if one.mean() < 0.98:
        return False
    n = one.sum()
    cnt = M[one].sum(axis=0)
    if one.mean() > 0.9999 and n >= 1000:
        ex = n * share / share.sum()
        big = ex >= 5
        if big.sum() > 1:
            from scipy.stats import chi2
            q = np.sum((cnt[big] - ex[big]) ** 2 / ex[big])
            q += max(cnt[~big].sum() - ex[~big].sum(), 0) ** 2 / max(
                ex[~big].sum(), 5.0)
            if chi2.sf(q, int(big.sum())) < 1e-13:
                i = int(np.argmax(np.where(big, (cnt - ex) ** 2 / np.maximum(
                    ex, 1e-9), 0)))
                raise Violation(
                    "%s: the shares of the %d segments are off (chi-square %.0f), "
                    "e.g. %d of %d samples on segment %s, their share is %.4f" % (
                        name, len(keys), q, cnt[i], n, keys[i], share[i]),
                    sig=name + " share")
    # up to two percent of the samples belong to more than one segment
    for k, c, p in zip(keys, cnt, share):
        lo, hi = 0.98 * p - 0.002, 1.02 * p + 0.002
        if c < n * lo:
            unlikely(name, "on segment %s" % (k,), c, n, max(lo, 0))
        elif c > n * hi:
            unlikely(name, "on segment %s" % (k,), c, n, min(hi, 1))
    return True


def evaluate(case):
    name = case["cls"]
    X, y, mnl, mjl = gen.materialise(case["ds"])
    p = dict(case["params"])
    gap = int(np.sum(y == mjl) - np.sum(y == mnl))
    many = case["many"] and gap > 0 and params.accepts(name, "proportion")
    if many:
        p["proportion"] = (MANY.get(name, 3000) + 0.5) / gap
    r = over.run_or_skip({**case, "params": p}, X=X, y=y)
    r["mnl"], r["mjl"] = mnl, mjl
    Xs, ys = over.unpack(case, r)
    tags = over.tags(case)
    D = Data(case, r)
    D.n = int(gap * p.get("proportion", 1.0))
    if len(D.A) <= 2:
        raise Skip("tiny class")
    if p.get("proportion", 1) * gap < 1:
        return {"nontrivial": False, "tags": tags}
    R = RULES[name](D)
    if name in REPEAT and R is not None:
        # too few samples per run
        more = [Xs]
        for t in range(REPEAT[name]):
            q = over.run_or_skip({**case, "params": p, "rs": 1000 + t}, X=X, y=y)
            more.append(over.unpack(case, q)[0][D.start:])
        Xs = np.vstack(more)
    if not isinstance(R, Either):
        return judged(name, R, D, D.start, Xs, tags, gap, r, case)
    for last, (start, rule) in enumerate(R.options, 1):
        try:
            return judged(name, rule, D, start, Xs, list(tags), gap, r, case)
        except Violation:
            if last == len(R.options):
                raise


def judged(name, R, D, start, Xs, tags, gap, r, case):
    S = np.asarray(Xs, dtype=float)
    if D.select == "tail":
        S = S[start:]
    else:
        S = S[np.array([not np.any(np.all(x == D.X, axis=1)) for x in S])]
    if R is None:
        if len(S):
            raise Violation("%s generated %d samples where its definition selects "
                            "no place for one" % (name, len(S)), sig=name + " none")
        return {"nontrivial": True, "tags": tags + ["nothing to select"]}
    if len(S) == 0:
        if (name in MAY_ABORT and not getattr(D, "must", False)) or gap <= 0:
            return {"nontrivial": False, "tags": tags}
        n = r["obj"].get_params().get("proportion", 1.0)
        if int(gap * n) < 1:
            return {"nontrivial": False, "tags": tags}
        raise Violation("%s generated nothing, its definition selects places" %
                        name, sig=name + " nothing")
    if isinstance(R, Kernel):
        if not R.test(name, S):
            return {"nontrivial": False, "tags": tags}
        return {"nontrivial": True, "tags": tags + ["distribution"]}
    if isinstance(R, Mix):
        R.test(name, S)
        return {"nontrivial": True, "tags": tags + ["distribution"]}
    if isinstance(R, Box):
        ok = in_boxes(S, R)
    elif isinstance(R, Pred):
        ok = R.fn(S)
    else:
        hit = in_segments(S, R)
        ok = hit.any(axis=1)
    if hasattr(R, "also"):
        ok &= R.also(S)
    if not ok.all():
        i = int(np.where(~ok)[0][0])
        raise Violation("%s: %d of %d generated samples, e.g. %s, are not where "
                        "the definition of the technique generates" % (
                            name, int((~ok).sum()), len(S), S[i].tolist()),
                        sig=name + " place")
    if hasattr(R, "groups"):
        # the shares of the groups are taken from the samples
        one = (hit.astype(float) @ (
            R.groups[:, None] == np.unique(R.groups)[None])) > 0
        own = one.sum(axis=1) == 1
        if own.mean() < 0.98:
            R.w = None
        else:
            cnt = one[own].sum(axis=0) / own.sum()
            R.w = R.w * cnt[np.searchsorted(np.unique(R.groups), R.groups)]
    if isinstance(R, Seg) and R.w is not None and len(S) >= 100 and \
            getattr(R, "eff", 1.0) == 1.0:
        if frequencies(name, hit, R):
            tags.append("shares")
    m = getattr(R, "like", R if isinstance(R, (Seg, Box)) and R.w is not None
                else None)
    if m is not None and len(S) >= 250:
        if same_distribution(name, S, m, case["rs"], D.X):
            tags.append("distribution")
    return {"nontrivial": True, "tags": tags + ["places"]}


def tasks(tier):
    from ..params import SLOW
    return [Task(n, (lambda n=n: rule_case(n)), evaluate,
                 over.n_for(n, 120 if tier == "quick" else 1000),
                 cost=SLOW.get(n, 1.0)) for n in RULES]


RUNNER = Runner(
    "C28", "",
    "one case = a dataset without distance ties, one listed technique with drawn "
    "parameters; the model of the technique gives the allowed segments or boxes "
    "and, where the definition fixes them, their shares; non-trivial = samples "
    "were generated and judged, or the definition selects no place for one",
    ["datasets in which rounding could decide a neighborhood are given up",
     "shares are judged with a slack of 8 standard deviations plus 25 samples"],
    tasks)
