import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip
from .c07 import segment_dist, hull_dist, allowed_pairs, pair_dist

LABELS = [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [1, 0, 2, 5, 3, 9],
          [-1, 3, 7, -5, 20, 0], [2, 0, 1, 4, 6, 5]]
STRATEGIES = ["eq_1_vs_many_successive", "equalize_1_vs_many"]
# exact, and generating on segments between members of the class
CORE = ["SMOTE", "distance_SMOTE", "Edge_Det_SMOTE", "CBSO", "ProWSyn",
        "Lee", "SN_SMOTE", "MSYN"]


def names():
    """additive techniques with a proportion parameter"""
    return [n for n in groups.ADDITIVE if params.accepts(n, "proportion")
            and n != "DEAGO"]


@st.composite
def case_of(draw, name):
    k = draw(st.integers(2, 6))
    slow = params.SLOW.get(name, 1)
    top = 26 if slow < 5 else 14
    mode = draw(st.sampled_from(["any", "any", "ties", "pair", "small"]))
    if mode == "ties":
        a = draw(st.integers(4, top))
        counts = [a] * k
        for i in range(draw(st.integers(0, k - 1))):
            counts[-1 - i] = draw(st.integers(3, a))
    elif mode == "pair":
        a = draw(st.integers(4, top))
        counts = [draw(st.sampled_from([a, max(1, a - 1), max(1, a // 2)]))
                  for _ in range(k)]
    elif mode == "small":
        counts = [draw(st.integers(1, 6)) for _ in range(k)]
    else:
        counts = [draw(st.integers(2, top)) for _ in range(k)]
    return {"cls": name, "counts": counts,
            "labels": draw(st.sampled_from(LABELS))[:k],
            "d": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(["gauss", "gauss", "gauss", "grid"])),
            "order": draw(st.sampled_from(["shuffled", "sorted"])),
            "strategy": draw(st.sampled_from(STRATEGIES)),
            "n_neighbors": draw(st.sampled_from([3, 5])),
            "rs": draw(st.integers(0, 99))}


def evaluate(case):
    name = case["cls"]
    X, y = gen.multiclass(case)
    p = {"random_state": case["rs"]}
    p.update(params.CHEAP.get(name, {}))
    if params.accepts(name, "n_neighbors") and name in CORE:
        p["n_neighbors"] = case["n_neighbors"]
    X0, y0, p0 = X.copy(), y.copy(), dict(p)
    try:
        m = over.guarded(sv.MulticlassOversampling, oversampler=name,
                         oversampler_params=p, strategy=case["strategy"])
        Xs, ys = over.guarded(m.sample, X, y)
        Xt, yt = over.guarded(m.sample, X, y)
    except over.Raised as e:
        raise Violation("multiclass %s with class sizes %s: %s" % (
            name, case["counts"], e), sig="%s %s" % (name, e.sig))
    if p != p0:
        raise Violation("the caller's oversampler_params changed: %s" % p)
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("the input arrays changed")
    if np.shares_memory(Xs, X) or np.shares_memory(ys, y):
        raise Violation("the result shares memory with the input")
    if not (np.array_equal(Xs, Xt) and np.array_equal(ys, yt)):
        raise Violation("multiclass %s: the second call returns something else "
                        "for an integer random_state" % name)
    if len(Xs) != len(ys) or Xs.ndim != 2 or Xs.shape[1] != X.shape[1]:
        raise Violation("inconsistent shapes %s %s" % (Xs.shape, ys.shape))
    if not (np.array_equal(Xs[:len(X)], X) and np.array_equal(ys[:len(y)], y)):
        raise Violation("multiclass %s: the result does not start with the "
                        "original samples" % name, sig=name + " prefix")
    if not set(ys.tolist()) <= set(y.tolist()):
        raise Violation("invented labels %s" % sorted(set(ys.tolist())
                                                      - set(y.tolist())))
    if not np.all(np.isfinite(Xs)):
        raise Violation("multiclass %s: non-finite values" % name)
    top = max(case["counts"])
    exact = name in groups.ALWAYS_EXACT
    for lab, c in zip(case["labels"], case["counts"]):
        n = int(np.sum(ys == lab))
        if n > top and name not in groups.COUNT_OTHER:
            raise Violation("multiclass %s (%s): class %s grows from %d to %d, "
                            "the largest class has %d" % (
                                name, case["strategy"], lab, c, n, top),
                            sig=name + " grows")
        if exact and c > 2 and n != top:
            raise Violation("multiclass %s (%s): class %s of %d members has %d "
                            "after sampling, the largest class has %d (sizes %s)"
                            % (name, case["strategy"], lab, c, n, top,
                               case["counts"]), sig=name + " count")
        if name in CORE:
            S = Xs[len(X):][ys[len(X):] == lab]
            A = X[y == lab]
            pick = S if len(S) <= 12 else S[
                np.linspace(0, len(S) - 1, 12).astype(int)]
            for x in pick:
                h = hull_dist(x, A)
                if name in groups.SEGMENT:
                    h = max(h, segment_dist(x, A))
                if h > 1e-6:
                    raise Violation(
                        "multiclass %s (%s): generated sample %s of class %s is "
                        "not between members of that class (distance %.3g)" % (
                            name, case["strategy"], x.tolist(), lab, h),
                        sig=name + " between")
    t = ["classes:%d" % len(case["counts"]), case["strategy"]]
    if len(set(case["counts"])) < len(case["counts"]):
        t.append("tied sizes")
    return {"nontrivial": len(Xs) > len(X) and len(case["counts"]) > 2,
            "tags": t}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in names():
        base = (400 if n in CORE else 60) if q else (5000 if n in CORE else 800)
        out.append(Task(n, lambda n=n: case_of(n), evaluate,
                        over.n_for(n, base, 6), cost=2 * params.SLOW.get(n, 1)))
    return out


RUNNER = Runner(
    "C13", "",
    "one case = additive oversampler x strategy x class sizes (2 to 6 classes, "
    "ties and tiny classes included) x labels x geometry; non-trivial = distinct "
    "case of at least three classes in which samples are generated",
    ["the exact class size is demanded for the techniques that always generate "
     "the requested number (list in the C03 statement), the location of the "
     "generated samples for " + ", ".join(CORE),
     "DEAGO is left out (minutes per call)"], tasks)
