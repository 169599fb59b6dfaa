"""Techniques whose definition fixes the result (up to the draws of a public
building block) compared with independent models of the definitions."""
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment
from scipy.stats import skew
import smote_variants as sv
from .. import gen, params, over
from ..core import Task, Runner, Violation, Skip
from .c28 import knn, dist, kmeans, minmax, Ambiguous, KINDS, Data


class Exact:
    """the rows of the result with their labels, in any order"""

    def __init__(self, X, y):
        self.X, self.y = np.asarray(X, dtype=float), np.asarray(y)


class Sure:
    """rows that have to be there once, rows that may be there in addition;
    both with labels"""

    def __init__(self, X, y, opt, yopt):
        self.X, self.y = np.asarray(X, dtype=float), np.asarray(y)
        self.opt, self.yopt = np.asarray(opt, dtype=float), np.asarray(yopt)


class Parts:
    """rows of the majority class (exact) and a function that judges the
    minority rows"""

    def __init__(self, maj, fn):
        self.maj, self.fn = maj, fn


class Judge:
    """a function that judges rows and labels of the result"""

    def __init__(self, fn):
        self.fn = fn


class OneOf:
    """the result is one of the listed (X, y), any order of the rows"""

    def __init__(self, options):
        self.options = options


def orig(D):
    return Exact(D.X, D.y)


def rep(D, *parts):
    X = np.vstack([np.reshape(p, (-1, D.d)) for p, _ in parts])
    return Exact(X, np.hstack([np.repeat(l, len(np.reshape(p, (-1, D.d))))
                               for p, l in parts]))


def plus(D, S):
    return rep(D, (D.A, D.mn), (D.B, D.mj), (S, D.mn))


def smote_of(D, k="n_neighbors", proportion=None, X=None, y=None):
    p = D.p
    o = sv.SMOTE(proportion=p["proportion"] if proportion is None else proportion,
                 n_neighbors=p[k], nn_params=p["nn_params"],
                 ss_params=p["ss_params"], random_state=D.rs)
    X, y = D.X if X is None else X, D.y if y is None else y
    return over.guarded(o.sample, X, y)


# -------------------------------------------------------- neighbourhood rules
def spy(D):
    k = min(len(D.X) - 1, D.p["n_neighbors"])
    nb = knn(D.A, D.X, k, True)
    y = D.y.copy()
    for row in nb:
        maj = [j for j in row if not D.ismin[j]]
        if len(maj) < D.p["threshold"] * (k + 1):
            y[maj] = D.mn
    return Exact(D.X, y)


def stefanowski(D):
    X, m = D.X, D.ismin
    if len(X) < 7:
        raise Skip("too few samples")
    n5 = knn(X, X, 5, True)
    n3 = n5[:, :3]
    same3 = np.sum(m[n3] == m[:, None], axis=1)
    same5 = np.sum(m[n5] == m[:, None], axis=1)
    safe = same3 >= 2
    lab = m.copy()
    drop = ~m & ~safe
    copies = np.zeros(len(X), int)
    st_ = D.p["strategy"]
    for i in D.imin:
        c3 = sum(1 for j in n3[i] if not m[j] and safe[j])
        c5 = sum(1 for j in n5[i] if not m[j] and safe[j])
        if st_ in ("weak_amp", "weak_amp_relabel"):
            if not safe[i]:
                copies[i] = c3
                if st_ == "weak_amp_relabel":
                    for j in n3[i]:
                        if not m[j] and not safe[j]:
                            lab[j], drop[j] = True, False
        elif safe[i] or same5[i] >= 3:
            copies[i] = c3
        else:
            copies[i] = c5
    if len(set(lab[~drop])) < 2:
        return orig(D)
    y = np.where(lab, D.mn, D.mj)
    return rep(D, (X[~drop & lab], D.mn), (X[~drop & ~lab], D.mj),
               (np.repeat(X, copies, axis=0), D.mn))


def smote_d(D):
    A = D.A
    k = min(len(A) - 1, D.p["k"])
    nb = knn(A, A, k, True)
    d = np.take_along_axis(dist(A, A), nb, axis=1)

    def dens(v):
        return v / v.sum() if v.sum() > 0 else np.full(len(v), 1.0 / len(v))
    C = D.n * dens(d.std(axis=1))[:, None] * np.array([dens(r) for r in d])
    must, may = [], []
    for i in range(len(A)):
        for j, c in zip(nb[i], C[i]):
            if min(c % 1, 1 - c % 1) < 1e-9:
                raise Ambiguous("rounding")
            while c > 0:
                (must if c >= 1 else may).append(A[i] + (A[j] - A[i]) / (c + 1))
                c -= 1
    e = np.zeros((0, D.d))
    S = np.vstack([D.X, np.reshape(must, (-1, D.d))])
    return Sure(S, np.hstack([D.y, np.repeat(D.mn, len(must))]),
                np.vstack([e, np.reshape(may, (-1, D.d))]),
                np.repeat(D.mn, len(may)))


# ------------------------------------------------------------------ topologies
def star(D, S=None):
    k = max(1, int(np.rint(D.n / len(D.A))))
    c = D.A.mean(axis=0)
    return [a + (c - a) * t / (k + 1) for a in D.A for t in range(1, k + 1)]


def bus(D):
    k = max(1, int(np.rint(D.n / len(D.A))))
    return [a + (b - a) * t / (k + 1) for a, b in zip(D.A, D.A[1:])
            for t in range(1, k + 1)]


def poly(D):
    deg = int(D.p["order"])
    mu = D.A.mean(axis=1)
    if np.min(np.diff(np.sort(mu))) < 1e-9 * max(np.abs(mu).max(), 1e-300):
        raise Ambiguous("equal means")
    A = D.A[np.argsort(mu)]
    n = len(A)
    lo, hi = [], []
    for c in A.T:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q = np.poly1d(np.polyfit(np.arange(n), c, deg))
        t = np.linspace(0, n, 20001)
        v = q(t)
        e = np.abs(np.diff(v)).max() + 1e-9 * np.abs(v).max()
        lo.append(v.min() - e)
        hi.append(v.max() + e)

    def fn(M):
        if len(M) != len(A) + D.n:
            return "%d minority rows instead of %d" % (len(M), len(A) + D.n)
        bad = np.any((M < lo) | (M > hi), axis=1)
        bad &= ~np.array([np.any(np.all(x == A, axis=1)) for x in M])
        if bad.any():
            return "%s is off the fitted polynomials" % M[bad][0].tolist()
    return Parts(D.B, fn)


# -------------------------------------------------------------------- clusters
def ward(A):
    cl = [(a, 1) for a in A]
    out = []
    while len(cl) > 1:
        best = []
        for i in range(len(cl)):
            for j in range(i):
                (a, p), (b, q) = cl[i], cl[j]
                best.append((p * q / (p + q) * np.sum((a - b) ** 2), i, j))
        best.sort()
        if len(best) > 1 and best[1][0] - best[0][0] < 1e-9 * best[-1][0]:
            raise Ambiguous("distance ties")
        _, i, j = best[0]
        (a, p), (b, q) = cl[i], cl[j]
        c = ((p * a + q * b) / (p + q), p + q)
        out.append(c[0])
        cl = [x for t, x in enumerate(cl) if t not in (i, j)] + [c]
    return np.array(out)


def ahc(D):
    s = D.p["strategy"]
    if s == "maj":
        return rep(D, (D.A, D.mn),
                   (kmeans(D.B, len(D.A), D.rs).cluster_centers_, D.mj))
    W = ward(D.A)
    B = D.B
    if s != "min":
        B = kmeans(D.B, min(len(D.B), len(W) + len(D.A)), D.rs).cluster_centers_
    return rep(D, (W, D.mn), (D.A, D.mn), (B, D.mj))


# --------------------------------------------------------------- composition
def drop_rows(filt, X, y):
    return over.guarded(filt.remove_noise, X, y)


def smote_enn(D):
    X, y = smote_of(D)
    X, y = drop_rows(sv.noise_removal.EditedNearestNeighbors(
        nn_params=D.p["nn_params"]), X, y)
    if np.sum(y == D.mj) < np.sum(y == D.mn) or not np.any(y == D.mn):
        return orig(D)
    return Exact(X, y)


def smote_tomek(D):
    X, y = smote_of(D)
    X, y = drop_rows(sv.noise_removal.TomekLinkRemoval(
        strategy="remove_both", nn_params=D.p["nn_params"]), X, y)
    return Exact(X, y) if len(X) else orig(D)


def sl_graph(D):
    if D.n == 0:
        return orig(D)
    k = min(len(D.X), D.p["n_neighbors"])
    lev = np.sum(D.ismin[knn(D.A, D.X, k)], axis=1)
    if np.all(lev == lev[0]):
        sk = np.nan
    else:
        sk = skew(lev)
        if abs(sk) < 1e-9:
            sk = 0.0 if sk == 0 else None
    if sk is None:
        raise Ambiguous("symmetric safe levels")
    cls = sv.Safe_Level_SMOTE if sk < 0 else sv.Borderline_SMOTE1
    o = cls(proportion=D.p["proportion"], n_neighbors=D.p["n_neighbors"],
            nn_params=D.p["nn_params"], ss_params=D.p["ss_params"],
            random_state=D.rs)
    return Exact(*over.guarded(o.sample, D.X, D.y))


def smote_rsb(D):
    S = smote_of(D)[0][len(D.X):]
    if len(S) == 0:
        return orig(D)
    rng = S.max(axis=0) - S.min(axis=0)
    if np.any(rng <= 1e-12 * np.abs(S).max()):
        raise Ambiguous("constant feature")
    sim = np.array([[1 - np.sum(np.abs(s - b) / rng) / D.d for b in D.B]
                    for s in S])
    top = sim.max(axis=1)
    # a sample is accepted at the first of the levels 0.4, 0.45, ... 0.85 that is
    # not exceeded by its similarity to a majority sample
    lv = np.ceil((top - 0.4) / 0.05 - 1e-9).astype(int)
    if np.any(np.abs((top - 0.4) / 0.05 - np.rint((top - 0.4) / 0.05)) < 1e-6):
        raise Ambiguous("similarity levels")
    lv = np.maximum(lv, 0)
    room = len(D.B) - len(D.A)
    out = []
    for level in range(10):
        if len(out) >= room:
            break
        out += [i for i in range(len(S)) if lv[i] == level]
    return plus(D, S[out[:max(room, 0)]])


def msyn(D):
    n = int((len(D.B) - len(D.A)) * D.p["pressure"])
    if n <= 0:
        return orig(D)
    S = smote_of(D, proportion=3 * D.p["pressure"])[0][len(D.X):]
    d0 = dist(D.X, D.X)
    np.fill_diagonal(d0, np.inf)
    same = D.ismin[:, None] == D.ismin[None]
    hit = np.where(same, d0, np.inf).min(axis=1)
    miss = np.where(~same, d0, np.inf).min(axis=1)
    ds = dist(D.X, S)
    f = []
    for t in range(len(S)):
        dp = dn = 0.0
        for i in range(len(D.X)):
            old = 0.5 * (miss[i] - hit[i])
            if D.ismin[i]:
                dp += 0.5 * (miss[i] - min(hit[i], ds[i, t])) - old
            else:
                dn += 0.5 * (min(miss[i], ds[i, t]) - hit[i]) - old
        f.append(-dn / (dp + 0.01))
    f = np.array(f)
    o = np.argsort(f, kind="stable")
    # candidates that differ by less are interchangeable up to rounding
    if n < len(f) and f[o[n]] - f[o[n - 1]] < 1e-9 * max(np.abs(f).max(), 1e-300):
        mj = ~D.ismin
        clear = np.abs(ds[mj] - miss[mj][:, None]).min() > 1e-9
        if not (f[o[n]] == f[o[n - 1]] == 0.0 and clear):
            raise Ambiguous("equal values")
    return plus(D, S[o[:n]])


def gazzah(D):
    if D.n == 0:
        return orig(D)
    Z = D.B - D.B.mean(axis=0)
    _, s, Vt = np.linalg.svd(Z, full_matrices=False)
    c = min(D.d, D.p["n_components"], len(Z))
    if c < len(s) and s[c - 1] - s[c] < 1e-6 * s[0]:
        raise Ambiguous("principal directions")
    T = Z @ Vt[:c].T
    R = math.sqrt(np.sum(T.var(axis=0)))
    r = np.linalg.norm(T, axis=1)
    if np.min(np.abs(r - R)) < 1e-9 * R:
        raise Ambiguous("radius")
    # the star samples replace the minority class
    return rep(D, (D.B[r <= R], D.mj), (star(D), D.mn))


def e_smote(D):
    X = np.asarray(D.obj.preprocessing_transform(D.X))
    return Exact(*smote_of(D, X=X))


def isomap(D):
    import warnings
    from sklearn.manifold import Isomap
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = Isomap(n_neighbors=min(D.p["n_neighbors"], len(D.X) - 1),
                   n_components=D.p["n_components"]).fit_transform(D.X)
    X, y = smote_of(D, "smote_n_neighbors", X=T)
    F = sv.noise_removal.NeighborhoodCleaningRule(nn_params=D.p["nn_params"])
    Xf, yf = drop_rows(F, X, (y == D.mn).astype(int))
    yf = np.where(yf == 1, D.mn, D.mj)
    if np.sum(yf == D.mn) <= 2 or np.sum(yf == D.mj) <= 2:
        return Exact(X, y)
    return Exact(Xf, yf)


def neater(D):
    if D.n == 0:
        return orig(D)
    p = D.p
    X0 = smote_of(D, "smote_n_neighbors")[0]
    o = sv.ADASYN(n_neighbors=p["b"], nn_params=p["nn_params"],
                  ss_params=p["ss_params"], random_state=D.rs)
    X1 = over.guarded(o.sample, D.X, D.y)[0][len(D.X):]
    Z = np.vstack([X0, X1])
    n = len(D.X)
    if p["b"] > len(Z) - 1:
        raise Skip("too few samples")
    nb = knn(Z[n:], Z, p["b"], True)
    w = np.minimum(1.0 / np.take_along_axis(dist(Z[n:], Z), nb, axis=1),
                   p["alpha"])
    pm = np.full(len(Z), 0.5)
    pm[:n] = D.ismin
    for _ in range(p["h"]):
        q = pm.copy()
        for s in range(len(nb)):
            me, ot, u = pm[n + s], pm[nb[s]], w[s]
            as_min = np.sum(ot + u * (1 - ot))
            as_maj = np.sum((1 - ot) + u * ot)
            mixed = np.sum(me * ot + (1 - me) * (1 - ot) +
                           u * (me * (1 - ot) + (1 - me) * ot))
            a, b = me * (p["alpha"] + as_min), (1 - me) * (p["alpha"] + as_maj)
            if p["alpha"] + mixed <= 0:
                raise Ambiguous("no payoff")
            q[n + s] = a / (a + b)
        pm = q
    if np.any(np.abs(pm[n:] - 0.5) < 1e-9):
        raise Ambiguous("undecided")
    return Exact(Z, np.hstack([D.y, np.where(pm[n:] > 0.5, D.mn, D.mj)]))


def smote_ipf(D):
    from sklearn.model_selection import StratifiedKFold
    import importlib
    if D.n == 0:
        return orig(D)
    p = D.p
    X, y = smote_of(D)
    folds = min(p["n_folds"], len(D.A))
    mod, cls, kw = p["classifier"]
    calm = 0
    while calm < p["k"]:
        wrong = []
        for tr, _ in StratifiedKFold(folds).split(X, y):
            c = getattr(importlib.import_module(mod), cls)(**kw)
            wrong.append(c.fit(X[tr], y[tr]).predict(X) != y)
        wrong = np.array(wrong)
        if p["voting"] == "consensus":
            rm = wrong.all(axis=0)
        else:
            # a tie of the votes counts for the majority class
            v = wrong.mean(axis=0)
            rm = (v > 0.5) | ((v == 0.5) & (y == D.mn))
        X, y = X[~rm], y[~rm]
        calm = calm + 1 if rm.sum() < len(X) * p["p"] or not rm.any() else 0
    return Exact(X, y)


def svm_balance(D):
    from sklearn.svm import SVC
    from sklearn.model_selection import cross_val_score
    X, y = smote_of(D)
    Z = X - X.mean(axis=0)
    if np.any(X.std(axis=0) < 1e-9):
        raise Ambiguous("constant feature")
    Z = Z / X.std(axis=0)
    best = None
    for C in (0.01, 0.1, 1.0, 10.0):
        s = np.mean(cross_val_score(SVC(C=C, gamma="auto"), Z, y,
                                    cv=min(5, int(np.sum(y == D.mn)))))
        if best is not None and abs(s - best[0]) < 1e-9 and s != best[0]:
            raise Ambiguous("equal scores")
        if best is None or s > best[0]:
            best = (s, C)
    m = SVC(C=best[1], gamma="auto").fit(Z, y)
    if np.min(np.abs(m.decision_function(Z))) < 1e-6:
        raise Ambiguous("decision")
    return Exact(X, m.predict(Z))


# -------------------------------------------------------- moved or kept parts
def sundo(D):
    n0, n1 = len(D.B), len(D.A)
    N = int(np.rint(0.5 * n0 - 0.5 * n1 + 0.5))
    if N == 0:
        return orig(D)
    d = dist(minmax(D.B), minmax(D.B))
    pr = sorted((d[i, j], i) for i in range(n0) for j in range(i + 1, n0))
    v = np.array([x for x, _ in pr])
    if len(v) and np.min(np.diff(v), initial=np.inf) < 1e-9 * v[-1]:
        raise Ambiguous("distance ties")
    # the first rows of the N closest pairs (never the widest pair)
    rm = {i for _, i in pr[:min(N, max(len(pr) - 1, 0))]}
    sd = D.A.std(axis=0)

    def fn(M):
        if len(M) != n1 + N:
            return "%d minority rows instead of %d" % (len(M), n1 + N)
        z = np.abs(M[:, None, :] - D.A[None]) / np.where(sd > 0, sd, 1e-300)
        far = z.max(axis=2).min(axis=1) > 8
        if far.any():
            return "%s is far from the minority samples" % M[far][0].tolist()
        for a in D.A:
            if not np.any(np.all(np.abs(M - a) <= 1e-9 * np.abs(a).max(), axis=1)):
                return "minority row %s is missing" % a.tolist()
    return Parts(D.B[[i for i in range(n0) if i not in rm]], fn)


def dsmote(D):
    if D.n == 0:
        return orig(D)
    lo, hi = D.X.min(axis=0), D.X.max(axis=0)
    if np.any(hi - lo <= 1e-9 * np.abs(D.X).max()):
        raise Ambiguous("constant feature")
    e = 1e-6

    def tr(X):
        return (X - lo) / (hi - lo) * (1 - 2 * e) + e
    A, B = tr(D.A), tr(D.B)
    n = len(A)
    ab = dist(A, A).sum(axis=1) / (n - 1) / dist(A, B).mean(axis=1)
    if np.min(np.diff(np.sort(ab))) < 1e-9 * ab.max():
        raise Ambiguous("equal abnormality")
    k = int(D.p["rate"] * n)
    out = np.argsort(-ab)[:k]
    keep = np.setdiff1d(np.arange(n), out)

    def fn(M):
        T = np.log(np.maximum(tr(M), 1e-300))
        base = np.log(A[keep])
        # the kept minority rows first, then the generated ones in order
        if len(T) < len(base) or np.any(np.abs(T[:len(base)] - base) > 1e-6):
            return "the minority rows with a normal distance are not kept"
        if len(T) > len(base) + D.n:
            return "%d samples instead of %d" % (len(T) - len(base), D.n)
        for t in range(len(base), len(T)):
            P = T[:t]
            ok = False
            for i in range(t):
                need = 3 * T[t] - P[i]
                for j in range(i):
                    r = P[:j] + P[j] - need
                    if j and np.any(np.abs(r).max(axis=1) <= 1e-5):
                        ok = True
                        break
                if ok:
                    break
            if not ok:
                return ("generated row %s is not a geometric mean of three "
                        "minority rows" % M[t].tolist())
    return Parts(np.vstack([D.B, D.A[out]]), fn)


# ------------------------------------------------- searches over SMOTE results
def psobat(D):
    """whatever the swarm finds: it is the outcome of SMOTE with a proportion
    and a number of neighbors out of the ranges that are searched"""
    n = len(D.out_y) - len(D.y)
    gap = len(D.B) - len(D.A)
    if gap <= 0:
        return orig(D)
    lo, hi = n / gap, (n + 1) / gap
    if hi <= 0.1 or lo > 2.0:
        raise Violation("SMOTE_PSOBAT: %d samples, the proportion is outside of "
                        "0.1 - 2.0" % n, sig="SMOTE_PSOBAT count")
    out = []
    for k in range(1, min(10, len(D.A)) + 1):
        ss = dict(D.p["ss_params"])
        ss["n_dim"] = min(ss["n_dim"], k)
        o = sv.SMOTE(proportion=(n + 0.5) / gap, n_neighbors=k,
                     nn_params=D.p["nn_params"], ss_params=ss, random_state=D.rs)
        out.append(over.guarded(o.sample, D.X, D.y))
    return OneOf(out)


def dsrbf(D):
    p = D.p
    m0, m1 = p["hidden_range"]
    m1 = min(len(D.X), m1)
    if D.n == 0 or m0 >= m1 or len(D.X) < m0 + 1:
        return orig(D)
    sd = D.X.std(axis=0)
    if np.any(sd <= 1e-9 * np.abs(D.X).max()):
        raise Ambiguous("constant feature")
    Z = (D.X - D.X.mean(axis=0)) / sd
    o = sv.SMOTE(proportion=p["proportion"], n_neighbors=p["n_neighbors"],
                 nn_params=p["nn_params"], ss_params=p["ss_params"],
                 random_state=D.rs)
    out = []
    for _ in range(2 + p["n_iter"]):
        S, l = over.guarded(o.sample, Z, D.ismin.astype(int))
        out.append((S * sd + D.X.mean(axis=0), np.where(l == 1, D.mn, D.mj)))
    return OneOf(out)


def frst(D):
    """fuzzy rough selection: samples of SMOTE are taken if they are close to
    the minority class, majority samples change sides if they are close to it"""
    lo, hi = D.X.min(axis=0), D.X.max(axis=0)
    if np.any(hi - lo <= 1e-9 * np.abs(D.X).max()):
        raise Ambiguous("constant feature")
    if len(D.B) <= len(D.A):
        return orig(D)

    def close(P, Q, g):
        d = np.minimum(np.abs(P[:, None, :] - Q[None]).sum(axis=2).min(axis=0), 1)
        if len(d) and np.min(np.abs(d - g)) < 1e-9:
            raise Ambiguous("closeness at its limit")
        return d < g

    Z = (D.X - lo) / (hi - lo)
    A, B = Z[D.ismin], Z[~D.ismin]
    keep = np.ones(len(B), bool)
    new, moved = np.zeros((0, D.d)), np.zeros((0, D.d))
    gs, gm = D.p["gamma_S"], D.p["gamma_M"]
    o = sv.SMOTE(proportion=max(1.1 / (len(B) - len(A)), 0.2),
                 n_neighbors=D.p["n_neighbors"], nn_params=D.p["nn_params"],
                 ss_params=D.p["ss_params"], random_state=D.rs)
    for it in range(100):
        if len(A) + len(new) + len(moved) >= keep.sum():
            break
        if len(new) < it:
            gs *= 1.1
        S = over.guarded(o.sample, Z, D.y)[0][len(Z):]
        far = close(np.vstack([A, new, moved]), B[keep], gm)
        S = S[close(A, S, gs)]
        if far.sum() > (keep.sum() - len(A)) / 2:
            gm *= 0.9
        else:
            i = np.where(keep)[0][far]
            moved = np.vstack([moved, B[i]])
            keep[i] = False
        new = np.vstack([new, S])
    if np.any(~keep) and keep.sum() == 0:
        raise Ambiguous("no majority left")

    def back(M):
        return M * (hi - lo) + lo
    return rep(D, (D.B[keep], D.mj), (D.A, D.mn), (back(new), D.mn),
               (back(moved), D.mn))


def amsco(D):
    """majority rows out of the original ones; the minority class as it was, or
    as SMOTE with 3 to 10 neighbors extends it by the share 0.25 to 4 of the
    difference to a majority class that was in use"""
    n = len(D.A)
    nb = knn(D.A, D.A, n - 1, True)
    far = min(10, n - 1)

    def fn(Xs, ys):
        M, B = Xs[ys == D.mn], Xs[ys == D.mj]
        for b in B:
            if not np.any(np.all(b == D.B, axis=1)):
                return "majority row %s is not an original one" % b.tolist()
        if len(M) < n or not np.array_equal(M[:n], D.A):
            return "the minority rows were changed"
        if len(D.B) <= n and len(M) > n:
            return "samples although nothing is missing"
        sc = max(np.abs(D.A - D.A.mean(axis=0)).max(), np.abs(D.A).max() * 1e-6)
        for s_ in M[n:]:
            ok = False
            for i in range(n):
                for j in nb[i, :far]:
                    v = D.A[j] - D.A[i]
                    t = np.clip((s_ - D.A[i]) @ v / (v @ v), 0, 1)
                    if np.abs(D.A[i] + t * v - s_).max() < 1e-7 * sc:
                        ok = True
                        break
                if ok:
                    break
            if not ok:
                return "sample %s is not between a minority row and one of its " \
                    "10 nearest" % s_.tolist()
    return Judge(fn)


MODELS = {
    "AMSCO": amsco,
    "SMOTE_PSOBAT": psobat, "DSRBF": dsrbf, "SMOTE_FRST_2T": frst,
    "SPY": spy, "Stefanowski": stefanowski, "SMOTE_D": smote_d,
    "polynom_fit_SMOTE_star": lambda D: plus(D, star(D)) if D.n else orig(D),
    "polynom_fit_SMOTE_bus": lambda D: plus(D, bus(D)) if D.n else orig(D),
    "polynom_fit_SMOTE_poly": poly, "AHC": ahc, "SMOTE_ENN": smote_enn,
    "SMOTE_TomekLinks": smote_tomek, "SL_graph_SMOTE": sl_graph,
    "SMOTE_RSB": smote_rsb, "MSYN": msyn, "Gazzah": gazzah, "E_SMOTE": e_smote,
    "ISOMAP_Hybrid": isomap, "NEATER": neater, "SMOTE_IPF": smote_ipf,
    "SVM_balance": svm_balance, "SUNDO": sundo, "DSMOTE": dsmote,
}


@st.composite
def exact_case(draw, name):
    c = draw(over.over_case(name, ds=dict(
        kinds=KINDS, labels=[[0, 1], [1, 0], [-1, 1], [7, 3]],
        min_n_min=7 if name == "Stefanowski" else 3, max_n_min=12, max_gap=20, max_d=4), pk=dict(
            metric=False, wide=True, ss=name != "AMSCO"), entry=False))
    return c


def match(name, what, S, E, sc):
    """the rows of S are the rows of E (any order, up to rounding)"""
    if len(S) != len(E):
        raise Violation("%s: %d %s rows, its definition gives %d" % (
            name, len(S), what, len(E)), sig=name + " " + what)
    if len(S) == 0:
        return
    if S.shape[1] != E.shape[1]:
        raise Violation("%s: %d features instead of %d" % (
            name, S.shape[1], E.shape[1]), sig=name + " features")
    bad = np.abs(S[:, None, :] - E[None]).max(axis=2) > 1e-7 * sc
    i, j = linear_sum_assignment(bad)
    if bad[i, j].any():
        t = int(np.where(bad[i, j])[0][0])
        raise Violation("%s: %s row %s is not one that its definition gives" % (
            name, what, S[i[t]].tolist()), sig=name + " " + what)


def evaluate(case):
    name = case["cls"]
    X, y, mnl, mjl = gen.materialise(case["ds"])
    r = over.run_or_skip(case, X=X, y=y)
    r["mnl"], r["mjl"] = mnl, mjl
    Xs, ys = over.unpack(case, r)
    D = Data(case, r)
    D.obj = r["obj"]
    D.out_y = ys
    gap = len(D.B) - len(D.A)
    D.n = int(gap * D.p.get("proportion", 1.0)) if gap > 0 else 0
    if len(D.A) < 3:
        raise Skip("tiny class")
    need = getattr(D.obj, "checks", {})
    if len(D.A) <= need.get("min_n_min", 0) or D.d < need.get("min_n_dim", 0):
        raise Skip("below the size the technique needs")
    try:
        R = MODELS[name](D)
    except over.Raised as e:
        raise Skip("building block raised " + e.sig)
    Xs = np.asarray(Xs, dtype=float)
    sc = max(np.abs(Xs).max(initial=0), np.abs(D.X).max(), 1e-300)
    same = Xs.shape == D.X.shape and np.array_equal(Xs, D.X) and \
        np.array_equal(ys, D.y)
    tags = over.tags(case) + (["unchanged"] if same else ["changed"])
    if isinstance(R, Exact):
        for l, what in ((mnl, "minority"), (mjl, "majority")):
            match(name, what, Xs[ys == l], R.X[R.y == l], sc)
        if np.sum(np.isin(ys, [mnl, mjl])) != len(ys):
            raise Violation("%s: foreign labels" % name)
    elif isinstance(R, Judge):
        msg = R.fn(Xs, np.asarray(ys))
        if msg:
            raise Violation("%s: %s" % (name, msg), sig=name + " rows")
    elif isinstance(R, OneOf):
        err = None
        for Xo, yo in R.options:
            try:
                for l, what in ((mnl, "minority"), (mjl, "majority")):
                    match(name, what, Xs[ys == l], Xo[yo == l], sc)
                break
            except Violation as e:
                err = e
        else:
            raise err
    elif isinstance(R, Sure):
        S, yS = list(Xs), list(ys)
        E = np.vstack([R.X, R.opt])
        yE = np.hstack([R.y, R.yopt])
        if not len(R.X) <= len(S) <= len(E):
            raise Violation("%s: %d rows, its definition gives %d to %d" % (
                name, len(S), len(R.X), len(E)), sig=name + " count")
        bad = (np.abs(Xs[:, None, :] - E[None]).max(axis=2) > 1e-7 * sc) | (
            np.asarray(ys)[:, None] != yE[None])
        # rows that have to be there are worth more
        cost = bad.astype(float)
        cost[:, :len(R.X)] -= 0.001
        i, j = linear_sum_assignment(cost)
        if bad[i, j].any():
            t = int(np.where(bad[i, j])[0][0])
            raise Violation("%s: row %s is not one that its definition gives" % (
                name, Xs[i[t]].tolist()), sig=name + " place")
        if len(set(range(len(R.X))) - set(j.tolist())):
            raise Violation("%s: a row that its definition gives is missing" %
                            name, sig=name + " missing")
    else:
        match(name, "majority", Xs[ys == mjl], R.maj, sc)
        msg = R.fn(Xs[ys == mnl])
        if msg:
            raise Violation("%s: %s" % (name, msg), sig=name + " minority")
    return {"nontrivial": not same, "tags": tags}


def tasks(tier):
    from ..params import SLOW
    return [Task(n, (lambda n=n: exact_case(n)), evaluate,
                 over.n_for(n, 300 if tier == "quick" else 1500),
                 cost=SLOW.get(n, 1.0)) for n in MODELS]


RUNNER = Runner(
    "C29", "",
    "one case = a dataset, one listed technique with drawn parameters; the rows "
    "and labels of the result are matched with those an independent model of "
    "the definition gives; non-trivial = the result differs from the input",
    ["datasets in which rounding could decide an order are given up"],
    tasks)
