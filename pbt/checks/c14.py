import numpy as np
from hypothesis import strategies as st
from smote_variants import noise_removal
from .. import gen, over
from ..core import Task, Runner, Violation, Skip

FILTERS = {"TomekLinkRemoval": {"strategy": ["remove_majority", "remove_both"]},
           "EditedNearestNeighbors": {"remove": ["both", "min", "maj"]},
           "CondensedNearestNeighbors": {}, "OneSidedSelection": {},
           "CNNTomekLinks": {}, "NeighborhoodCleaningRule": {}}


@st.composite
def case_of(draw, name):
    p = {k: draw(st.sampled_from(v)) for k, v in FILTERS[name].items()}
    metric = "euclid"
    if name in ("TomekLinkRemoval", "EditedNearestNeighbors",
                "NeighborhoodCleaningRule"):
        metric = draw(st.sampled_from(["euclid", "euclid", "euclid", "cityblock",
                                       "tensor", "cov"]))
    return {"cls": name, "params": p, "metric": metric,
            "ds": draw(gen.dataset(
                kinds=gen.KINDS + ["gauss", "overlap", "overlap", "clusters"],
                labels=gen.LABELS, forms=gen.FORMS, max_n_min=16, max_gap=30)),
            "n_jobs": draw(st.sampled_from([1, 1, 1, None]))}


def nn_params(case, X):
    """(constructor argument, distance matrix)"""
    Z = X.astype(float)
    D = Z[:, None, :] - Z[None, :, :]
    m = case["metric"]
    if m == "euclid":
        return None, np.sqrt(np.sum(D * D, axis=2))
    if m == "cityblock":
        return {"metric": "cityblock"}, np.sum(np.abs(D), axis=2)
    d = X.shape[1]
    if m == "tensor":
        r = np.random.RandomState(case["ds"]["seed"])
        A = r.normal(size=(d, d))
        M = A @ A.T + 0.2 * np.eye(d)
        M = (M + M.T) / 2
        return ({"metric": "precomputed", "metric_tensor": M},
                np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", D, M, D), 0)))
    C = np.atleast_2d(np.cov(Z.T))
    ev = np.linalg.eigvalsh(C)
    if len(Z) < 3 or ev.min() < 1e-3 or ev.max() > 1e4 * ev.min():
        raise Skip("degenerate covariance")
    M = np.linalg.inv(C)
    return ({"metric": "precomputed", "metric_learning_method": "cov"},
            np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", D, M, D), 0)))


def rows(X, y):
    return [(np.ascontiguousarray(x, dtype=float) + 0.0).tobytes() + b"|" +
            str(int(l)).encode() for x, l in zip(X, y)]


def neighbours(D, k):
    """k nearest other samples of each, None if a tie makes them ambiguous"""
    n = len(D)
    out = []
    for i in range(n):
        o = [j for j in range(n) if j != i]
        o.sort(key=lambda j: D[i, j])
        d = [D[i, j] for j in o]
        tol = 1e-9 * max(D.max(), 1e-300)
        if d and d[0] <= tol:
            return None                       # the sample has a duplicate
        if len(d) > k and d[k] - d[k - 1] <= tol:
            return None
        if len(d) < k:
            return None
        out.append(o[:k])
    return out


def tomek_links(D):
    n1 = neighbours(D, 1)
    if n1 is None:
        return None
    return [(i, n1[i][0]) for i in range(len(D)) if n1[n1[i][0]][0] == i]


def condense(X, y, mjl, mnl):
    """the rule: one majority sample, then all misclassified ones, repeatedly"""
    maj = [i for i in range(len(y)) if y[i] == mjl]
    mn = [i for i in range(len(y)) if y[i] == mnl]
    if not maj:
        return mn
    keep, rest = [maj[0]], maj[1:]
    Z = X.astype(float)
    while rest:
        bad = []
        for i in rest:
            dm = min((np.sum((Z[i] - Z[j]) ** 2) for j in mn), default=np.inf)
            dj = min(np.sum((Z[i] - Z[j]) ** 2) for j in keep)
            if abs(dm - dj) <= 1e-9 * max(dm, dj):
                return None
            if dm < dj:
                bad.append(i)
        if not bad:
            break
        keep += bad
        rest = [i for i in rest if i not in bad]
    return mn + keep


def reference(case, X, y, mnl, mjl, D):
    """indices kept according to the rule, None if ties leave it open"""
    name = case["cls"]
    n = len(X)
    if name == "TomekLinkRemoval":
        if n < 2:
            return list(range(n))
        links = tomek_links(D)
        if links is None:
            return None
        drop = set()
        for i, j in links:
            if y[i] != y[j]:
                if case["params"]["strategy"] == "remove_both":
                    drop |= {i, j}
                else:
                    drop.add(i if y[i] == mjl else j)
        return [i for i in range(n) if i not in drop]
    if name in ("EditedNearestNeighbors", "NeighborhoodCleaningRule"):
        if n < 4:
            return list(range(n))
        nb = neighbours(D, 3)
        if nb is None:
            return None
        drop = set()
        for i in range(n):
            votes = sum(y[j] == mnl for j in nb[i])
            pred = mnl if votes >= 2 else mjl
            if name == "EditedNearestNeighbors":
                which = case["params"]["remove"]
                if pred != y[i] and (which == "both" or
                                     (which == "min") == (y[i] == mnl)):
                    drop.add(i)
            elif y[i] == mjl and pred == mnl:
                drop.add(i)
            elif y[i] == mnl and pred == mjl:
                drop |= {j for j in nb[i] if y[j] == mjl}
        return [i for i in range(n) if i not in drop]
    if name == "CondensedNearestNeighbors":
        return condense(X, y, mjl, mnl)
    first, second = ((_tomek, condense) if name == "OneSidedSelection"
                     else (condense, _tomek))
    a = first(X, y, mjl, mnl)
    if a is None:
        return None
    b = second(X[a], y[a], mjl, mnl)
    return None if b is None else [a[i] for i in b]


def _tomek(X, y, mjl, mnl):
    Z = X.astype(float)
    if len(Z) < 2:
        return list(range(len(Z)))
    D = np.sqrt(np.sum((Z[:, None] - Z[None]) ** 2, axis=2))
    links = tomek_links(D)
    if links is None:
        return None
    drop = {i if y[i] == mjl else j for i, j in links if y[i] != y[j]}
    return [i for i in range(len(y)) if i not in drop]


def evaluate(case):
    name = case["cls"]
    X, y, mnl, mjl = gen.materialise(case["ds"])
    nnp, D = nn_params(case, X)
    kw = dict(case["params"])
    if nnp is not None:
        kw["nn_params"] = nnp
    snap = None if nnp is None else {k: np.array(v) for k, v in nnp.items()}
    X0, y0 = X.copy(), y.copy()
    what = "%s%s" % (name, case["params"] or "")
    try:
        f = over.guarded(getattr(noise_removal, name), n_jobs=case["n_jobs"] or 1,
                         **kw)
        out = over.guarded(f.remove_noise, X, y)
        again = over.guarded(f.remove_noise, X, y)
    except over.Raised as e:
        raise Violation("%s: %s" % (what, e), sig=name + " " + e.sig)
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("%s modified its input" % what)
    if snap is not None and (set(snap) != set(nnp) or any(
            not np.array_equal(v, np.array(nnp[k])) for k, v in snap.items())):
        raise Violation("%s modified the caller's nn_params" % what)
    Xr, yr = out
    if np.shares_memory(Xr, X) or np.shares_memory(yr, y):
        raise Violation("%s: the result shares memory with the input" % what)
    if not (np.array_equal(Xr, again[0]) and np.array_equal(yr, again[1])):
        raise Violation("%s: two calls on the same data differ" % what)
    if Xr.ndim != 2 or len(Xr) != len(yr) or Xr.shape[1] != X.shape[1]:
        raise Violation("%s: shapes %s %s" % (what, Xr.shape, yr.shape))
    pool = {}
    for r in rows(X, y):
        pool[r] = pool.get(r, 0) + 1
    for r in rows(Xr, yr):
        pool[r] = pool.get(r, 0) - 1
        if pool[r] < 0:
            raise Violation("%s: the result holds a labelled row more often "
                            "than the input" % what, sig=name + " invented")
    n_min, n_maj = int(np.sum(y == mnl)), int(np.sum(y == mjl))
    k_min, k_maj = int(np.sum(yr == mnl)), int(np.sum(yr == mjl))
    prot_min = name in ("CondensedNearestNeighbors", "OneSidedSelection",
                        "CNNTomekLinks", "NeighborhoodCleaningRule") or \
        case["params"].get("strategy") == "remove_majority" or \
        case["params"].get("remove") == "maj"
    if prot_min and k_min != n_min:
        raise Violation("%s: %d of %d minority samples survive, none may be "
                        "removed" % (what, k_min, n_min), sig=name + " minority")
    if case["params"].get("remove") == "min" and k_maj != n_maj:
        raise Violation("%s: %d of %d majority samples survive, none may be "
                        "removed" % (what, k_maj, n_maj), sig=name + " majority")
    tags = ["kind:" + case["ds"]["kind"], "metric:" + case["metric"]]
    if name == "CondensedNearestNeighbors":
        Z, Zr = X.astype(float), Xr.astype(float)
        if k_maj < 1:
            raise Violation("condensing removed the whole majority class")
        for x in Z[y == mjl]:
            d = np.sum((Zr - x) ** 2, axis=1)
            a, b = d[yr == mjl].min(), d[yr == mnl].min()
            if b < a - 1e-7 * max(a, 1e-300) and b > 1e-9 * (1 + np.sum(x * x)):
                raise Violation("condensing: the majority sample %s is closer "
                                "to a minority sample than to any kept majority "
                                "sample" % x.tolist(), sig=name + " consistent")
    want = reference(case, X, y, mnl, mjl, D)
    if want is None:
        tags.append("ties")
    else:
        A = sorted(rows(X[want], y[want]))
        if A != sorted(rows(Xr, yr)):
            raise Violation("%s keeps %d rows (%d minority), the rule keeps %d "
                            "(%d minority)" % (
                                what, len(Xr), k_min, len(want),
                                int(np.sum(y[want] == mnl))), sig=name + " rule")
        if name in ("TomekLinkRemoval", "EditedNearestNeighbors",
                    "NeighborhoodCleaningRule") and \
                rows(X[want], y[want]) != rows(Xr, yr):
            raise Violation("%s reorders the samples" % what)
        tags.append("rule checked")
    return {"nontrivial": len(Xr) < len(X), "tags": tags}


def tasks(tier):
    n = 600 if tier == "quick" else 8000
    return [Task(f, lambda f=f: case_of(f), evaluate, n, cost=1) for f in FILTERS]


RUNNER = Runner(
    "C14", "",
    "one case = noise filter x mode x metric x dataset; non-trivial = distinct "
    "case in which the filter removes at least one sample",
    ["the removed set is compared with the rule only when no distance tie "
     "decides it (counted under the tag 'rule checked')"], tasks)
