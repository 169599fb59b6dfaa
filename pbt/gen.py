"""Generators: JSON-serialisable dataset specs and their materialisation."""
import numpy as np
from hypothesis import strategies as st

KINDS = ["gauss", "sep", "overlap", "grid", "dup", "crossdup", "mindup",
         "lindep", "const", "clusters", "outlier", "line", "big", "tiny",
         "offset", "boundary", "skewed", "binary"]
# kinds without exact ties / degenerate geometry
REGULAR = ["gauss", "sep", "overlap", "clusters", "outlier", "big", "tiny",
           "boundary", "skewed"]
LABELS = [[0, 1], [1, 0], [-1, 1], [1, -1], [3, 7], [2, 1], [1, 2], [0, 5]]
ORDERS = ["shuffled", "min_first", "maj_first", "interleaved"]
FORMS = ["c", "c", "c", "f", "ro", "view", "f32", "int"]


@st.composite
def dataset(draw, min_n_min=1, max_n_min=22, max_gap=45, max_d=6, kinds=None,
            labels=None, forms=None, min_gap=0, min_d=1):
    # size profile first, so that the small boundary sizes are always well
    # represented next to the ordinary ones
    prof = draw(st.sampled_from(["norm", "norm", "norm", "norm", "small", "bal",
                                 "wide"]))

    def rng(lo, hi):
        # uniform choice (plain integers() favours the endpoints too much)
        return draw(st.sampled_from(list(range(lo, max(lo, hi) + 1))))
    if prof == "small":
        n_min = rng(min_n_min, min(6, max_n_min))
        gap = rng(min_gap, min(10, max_gap))
    elif prof == "bal":
        n_min = rng(min_n_min, max_n_min)
        gap = rng(min_gap, min(3, max_gap))
    else:
        n_min = rng(max(min_n_min, min(3, max_n_min)), max_n_min)
        gap = rng(max(min_gap, min(4, max_gap)), max_gap)
    d = rng(min_d, 12 if prof == "wide" and max_d >= 6 else max_d)
    return {
        "n_min": n_min, "gap": gap, "d": d,
        "kind": draw(st.sampled_from(kinds or KINDS)),
        "labels": draw(st.sampled_from(labels or [[0, 1]])),
        "order": draw(st.sampled_from(ORDERS)),
        "form": draw(st.sampled_from(forms or ["c"])),
        "seed": draw(st.integers(0, 2 ** 20)),
    }


def base_points(spec):
    """(X_min, X_maj) as float64"""
    r = np.random.RandomState(spec["seed"])
    n0, n1, d = spec["n_min"], spec["n_min"] + spec["gap"], spec["d"]
    kind = spec["kind"]
    A = r.normal(size=(n0, d))
    B = r.normal(size=(n1, d))
    if kind in ("gauss", "big", "tiny", "offset", "f"):
        A = A * 0.7 + 1.0
    elif kind == "sep":
        A = A * 0.5 + 8.0
    elif kind == "overlap":
        pass
    elif kind == "grid":
        A, B = np.round(A * 1.5 + 1), np.round(B * 1.5)
    elif kind == "dup":
        A, B = A + 1, B
        A = A[r.randint(0, max(1, (n0 + 1) // 2), n0)]
        B = B[r.randint(0, max(1, (n1 + 1) // 2), n1)]
    elif kind == "crossdup":
        k = max(1, n0 // 2)
        B[r.permutation(n1)[:k]] = A[:k]
    elif kind == "mindup":
        A = np.repeat(A[:1], n0, axis=0) + 0.5
    elif kind == "lindep":
        A = A + 1
        if d > 1:
            A[:, -1] = 2 * A[:, 0] + 1
            B[:, -1] = 2 * B[:, 0] + 1
    elif kind == "const":
        A = A + 1
        A[:, -1] = 3.0
        B[:, -1] = 3.0
    elif kind == "clusters":
        c = r.normal(size=(3, d)) * 6
        A = A * 0.4 + c[r.randint(0, 3, n0)]
        B = B * 0.8 + c[r.randint(0, 3, n1)] * 0.6
    elif kind == "outlier":
        A = A + 1
        A[0] = A[0] + 25.0
        B[0] = B[0] - 25.0
    elif kind == "line":
        v = r.normal(size=d)
        A = (np.arange(n0)[:, None] + 0.3) * v
        B = (np.arange(n1)[:, None]) * v + 0.1
    elif kind == "boundary":
        A[:, 0] = np.abs(A[:, 0])
        B[:, 0] = -np.abs(B[:, 0])
    elif kind == "skewed":
        A, B = np.exp(A), np.exp(B * 1.2)
    elif kind == "binary":
        A, B = (A > 0) * 1.0, (B > 0.3) * 1.0
    if kind == "big":
        A, B = A * 1e5, B * 1e5
    if kind == "tiny":
        A, B = A * 1e-5, B * 1e-5
    if kind == "offset":
        A, B = A + 1e4, B + 1e4
    return A, B


def materialise(spec):
    """(X, y, min_label, maj_label); by the package's own convention the
    second label in sorted order is the minority one when counts tie"""
    A, B = base_points(spec)
    maj, mnl = spec["labels"]
    n0, n1 = len(A), len(B)
    X = np.vstack([A, B])
    y = np.array([mnl] * n0 + [maj] * n1)
    order = spec["order"]
    if order == "maj_first":
        p = np.concatenate([np.arange(n0, n0 + n1), np.arange(n0)])
    elif order == "shuffled":
        p = np.random.RandomState(spec["seed"] + 1).permutation(n0 + n1)
    elif order == "interleaved":
        p = np.argsort(np.concatenate([np.arange(n0) * 2 + 1,
                                       np.arange(n1) * 2]), kind="stable")
    else:
        p = np.arange(n0 + n1)
    X, y = X[p], y[p]
    if n0 == n1:
        mnl, maj = max(spec["labels"]), min(spec["labels"])
    form = spec.get("form", "c")
    if form == "f":
        X = np.asfortranarray(X)
    elif form == "f32":
        X = X.astype(np.float32)
    elif form == "int":
        X = np.round(X * 4 if np.abs(X).max() < 1e4 else X).astype(np.int64)
    elif form == "view":
        big = np.zeros((len(X) * 2, X.shape[1] + 1))
        big[::2, :-1] = X
        X = big[::2, :-1]
    if form == "ro":
        X.setflags(write=False)
        y.setflags(write=False)
    return X, y, mnl, maj


def multiclass(spec):
    """{'counts':[...], 'd':, 'kind':, 'labels': [...], 'seed':, 'order':}"""
    r = np.random.RandomState(spec["seed"])
    Xs, ys = [], []
    for i, (c, l) in enumerate(zip(spec["counts"], spec["labels"])):
        Z = r.normal(size=(c, spec["d"])) + r.normal(size=spec["d"]) * 2
        if spec["kind"] == "grid":
            Z = np.round(Z)
        Xs.append(Z)
        ys.extend([l] * c)
    X, y = np.vstack(Xs), np.array(ys)
    if spec.get("order", "shuffled") == "shuffled":
        p = r.permutation(len(X))
        X, y = X[p], y[p]
    return X, y
