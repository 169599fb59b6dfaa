import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from smote_variants import base as B
from .. import over
from ..core import Task, Runner, Violation

RATIO = ["acc", "sens", "spec", "ppv", "npv", "fpr", "fdr", "fnr", "bacc", "f1",
         "informedness", "markedness"]


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def div(a, b, default=None):
    return F(a, b) if b else default


def reference(tp, tn, fp, fn):
    """scores from their definitions, exact rationals where possible; None =
    the definition divides by zero (or takes the logarithm of zero)"""
    p, n = tp + fn, tn + fp
    N = p + n
    s = {"acc": F(tp + tn, N), "sens": div(tp, p), "spec": div(tn, n),
         # nothing predicted for a class: the package's value is 0
         "ppv": div(tp, tp + fp, F(0)), "npv": div(tn, tn + fn, F(0)),
         "f1": div(2 * tp, 2 * tp + fp + fn)}
    s["fdr"] = 1 - s["ppv"]
    s["markedness"] = s["ppv"] + s["npv"] - 1
    s["fpr"] = None if s["spec"] is None else 1 - s["spec"]
    s["fnr"] = None if s["sens"] is None else 1 - s["sens"]
    both = None not in (s["sens"], s["spec"])
    s["bacc"] = (s["sens"] + s["spec"]) / 2 if both else None
    s["informedness"] = s["sens"] + s["spec"] - 1 if both else None
    s["gacc"] = math.sqrt(s["sens"] * s["spec"]) if both else None
    den = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    if den:
        num = tp * tn - fp * fn
        s["mcc"] = math.copysign(math.sqrt(F(num * num, den)), num)
    else:
        s["mcc"] = None

    def t(x, d):
        if not (x and d):
            return None
        return x * (math.log1p(-float(F(d - x, d))) if 2 * x > d
                    else math.log(x) - math.log(d))
    s["l"] = N * math.log(N)
    s["ltp"] = t(tp, (tp + fp) * (tp + fn))
    s["lfp"] = t(fp, (tp + fp) * (fp + tn))
    s["lfn"] = t(fn, (tp + fn) * (tn + fn))
    s["ltn"] = t(tn, (tn + fp) * (tn + fn))
    s["lp"], s["ln"] = t(p, N), t(n, N)
    q = [s[k] for k in ("ltp", "lfp", "lfn", "ltn")]
    s["uc"] = None
    if None not in q:
        s["uc"] = (s["l"] + sum(q)) / (s["l"] + s["lp"] + s["ln"])
    return s


def compare(got, want, what, N=100):
    for k, w in want.items():
        if k not in got:
            raise Violation("%s: score %s is missing" % (what, k))
        g = got[k]
        if (g is None) != (w is None):
            raise Violation("%s: %s is %r, by definition %s" % (
                what, k, g, "undefined" if w is None else float(w)),
                sig="undef " + k)
        if g is None:
            continue
        tol = 1e-9
        if k == "uc":
            tol = 1e-6
        # the logarithm of a rounded ratio, times a count
        slack = 1e-15 * N if k in ("ltp", "lfp", "lfn", "ltn", "lp", "ln") else 0
        if not np.isfinite(g) or not (close(float(g), float(w), tol) or
                                      abs(float(g) - float(w)) <= slack):
            raise Violation("%s: %s is %r, by definition %r" % (
                what, k, g, float(w)), sig="value " + k)


@st.composite
def count_case(draw):
    big = draw(st.sampled_from([3, 12, 200, 70000, 10 ** 6, 10 ** 9]))
    one = st.one_of(st.integers(0, big), st.sampled_from([0, 1, big]))
    c = [draw(one) for _ in range(4)]
    if sum(c) == 0:
        c[0] = 1
    return {"atoms": c}


def eval_counts(case):
    tp, tn, fp, fn = case["atoms"]
    atoms = {"tp": tp, "tn": tn, "fp": fp, "fn": fn}
    try:
        got = over.guarded(B.calculate_label_scores, dict(atoms))
    except over.Raised as e:
        raise Violation("calculate_label_scores(%s): %s" % (atoms, e),
                        sig=e.sig)
    for k, v in atoms.items():
        if got.get(k) != v:
            raise Violation("calculate_label_scores changes the count %s" % k)
    if got["p"] != tp + fn or got["n"] != tn + fp:
        raise Violation("p, n = %s, %s for %s" % (got["p"], got["n"], atoms))
    want = reference(tp, tn, fp, fn)
    if min(tp, tn, fp, fn) > 0 and max(tp, tn, fp, fn) > 10 ** 4:
        want.pop("uc")      # cancellation: the definition is ill-conditioned
    compare(got, want, "counts %s" % (case["atoms"],), sum(case["atoms"]))
    return {"nontrivial": min(case["atoms"]) > 0, "tags": [
        "zero count" if min(case["atoms"]) == 0 else "all positive",
        "large" if max(case["atoms"]) > 50000 else "small"]}


@st.composite
def vec_case(draw):
    n = draw(st.integers(1, 40))
    style = draw(st.sampled_from(["free", "coarse", "half", "const", "sharp"]))
    if style == "free":
        p = [draw(st.floats(0, 1, width=32)) for _ in range(n)]
    elif style == "coarse":
        p = [draw(st.sampled_from([0.0, 0.2, 0.4, 0.5, 0.6, 0.8, 1.0]))
             for _ in range(n)]
    elif style == "half":
        p = [draw(st.sampled_from([0.5, 0.5, 0.5, 0.1, 0.9, 0.5000001,
                                   0.4999999])) for _ in range(n)]
    elif style == "const":
        p = [draw(st.sampled_from([0.0, 0.3, 0.5, 1.0]))] * n
    else:
        p = [draw(st.sampled_from([0.0, 1.0])) for _ in range(n)]
    bias = draw(st.sampled_from([2, 2, 5, 1000]))
    y = [int(draw(st.integers(0, bias)) == 0) if bias != 1000 else
         draw(st.sampled_from([0, 1])) for _ in range(n)]
    if draw(st.integers(0, 9)) == 0:
        y = [y[0]] * n
    return {"y": y, "p": p, "min_label": draw(st.sampled_from([1, 1, 1, 0]))}


def labels_ref(p):
    """None = either"""
    ties = [i for i, v in enumerate(p) if v == 0.5]
    return [None if v == 0.5 else int(v > 0.5) for v in p], ties


def eval_vec(case):
    y, p, ml = np.array(case["y"]), np.array(case["p"], dtype=float), \
        case["min_label"]
    y0, p0 = y.copy(), p.copy()
    what = "labels %s probabilities %s" % (case["y"], case["p"])
    try:
        lab = over.guarded(B.prediction_labels, p)
        atoms = over.guarded(B.calculate_atoms, y, lab, ml)
        got = over.guarded(B.calculate_all_scores, y, p, ml)
    except over.Raised as e:
        raise Violation("%s: %s" % (what, e), sig=e.sig)
    if not (np.array_equal(y, y0) and np.array_equal(p, p0)):
        raise Violation("the scores modify their input")
    ref, ties = labels_ref(p)
    for i, r in enumerate(ref):
        if r is not None and lab[i] != r:
            raise Violation("probability %r predicts label %r" % (p[i], lab[i]))
    if not set(np.unique(lab).tolist()) <= {0, 1}:
        raise Violation("predicted labels %s" % np.unique(lab))
    ones = int(np.sum(lab[ties]))
    if abs(2 * ones - len(ties)) > 1:
        raise Violation("%d of %d probabilities of exactly 0.5 are predicted as "
                        "1" % (ones, len(ties)), sig="ties")
    tp = sum(1 for a, b in zip(y, lab) if a == ml and b == a)
    fn = sum(1 for a, b in zip(y, lab) if a == ml and b != a)
    tn = sum(1 for a, b in zip(y, lab) if a != ml and b == a)
    fp = sum(1 for a, b in zip(y, lab) if a != ml and b != a)
    if [atoms[k] for k in ("tp", "fn", "tn", "fp")] != [tp, fn, tn, fp]:
        raise Violation("confusion counts %s, counted tp %d fn %d tn %d fp %d" % (
            atoms, tp, fn, tn, fp), sig="atoms")
    for k in ("tp", "fn", "tn", "fp"):
        if got[k] != atoms[k]:
            raise Violation("calculate_all_scores counts %s=%r" % (k, got[k]))
    compare(got, reference(tp, tn, fp, fn), what)
    if set(B.all_scores) - set(got):
        raise Violation("scores %s are missing" % (set(B.all_scores) - set(got)))
    # probability scores
    n = len(y)
    brier = sum((F(float(a)) - int(b)) ** 2 for a, b in zip(p, y)) / n
    if not close(got["brier"], float(brier)):
        raise Violation("%s: brier %r, by definition %r" % (
            what, got["brier"], float(brier)), sig="value brier")
    eps = np.finfo(float).eps
    ll = 0.0
    for a, b in zip(p, y):
        q = a if b == 1 else 1 - a
        ll -= math.log(min(max(q, eps), 1 - eps))
    if not close(got["log_loss"], ll / n, 1e-6):
        raise Violation("%s: log_loss %r, by definition %r" % (
            what, got["log_loss"], ll / n), sig="value log_loss")
    pos, neg = p[y == 1], p[y == 0]
    if len(pos) and len(neg):
        w = sum((a > b) + F(int(a == b), 2) if True else 0
                for a in pos for b in neg)
        auc = float(F(w) / (len(pos) * len(neg)))
        if got["auc"] is None or not close(got["auc"], auc):
            raise Violation("%s: auc %r, by definition %r" % (
                what, got["auc"], auc), sig="value auc")
    elif got["auc"] is not None and np.isfinite(got["auc"]):
        raise Violation("%s: auc of a single class is %r" % (what, got["auc"]))
    k = max(n // 5, 1)
    rank = p if ml == 1 else 1 - p
    order = np.argsort(-rank, kind="stable")
    cut = rank[order[k - 1]]
    sure = [i for i in range(n) if rank[i] > cut]
    edge = [i for i in range(n) if rank[i] == cut]
    free = k - len(sure)
    h0 = sum(y[i] == ml for i in sure)
    he = sum(y[i] == ml for i in edge)
    lo, hi = h0 + max(0, free - (len(edge) - he)), h0 + min(free, he)
    if not (lo / k - 1e-9 <= got["p_top20"] <= hi / k + 1e-9):
        raise Violation("%s: precision in the top 20 percent %r, by definition "
                        "between %r and %r" % (what, got["p_top20"], lo / k,
                                               hi / k), sig="value p_top20")
    # direct call agrees
    pr = over.guarded(B.calculate_prob_scores, y, p, ml)
    for kk, v in pr.items():
        if v != got[kk] and not (v is None or np.isnan(v)):
            raise Violation("calculate_prob_scores and calculate_all_scores "
                            "disagree on %s" % kk)
    return {"nontrivial": len(pos) > 0 and len(neg) > 0 and n > 2,
            "tags": (["tied at 0.5"] if ties else []) +
            (["one class"] if not len(pos) or not len(neg) else [])}


@st.composite
def lab_case(draw):
    labs = draw(st.sampled_from([[0, 1], [1, 0], [-1, 1], [3, 7], [2, 5]]))
    n = draw(st.integers(1, 30))
    return {"y": [draw(st.sampled_from(labs)) for _ in range(n)],
            "q": [draw(st.sampled_from(labs)) for _ in range(n)],
            "min_label": labs[1]}


def eval_lab(case):
    """atoms for any pair of labels"""
    y, q, m = np.array(case["y"]), np.array(case["q"]), case["min_label"]
    a = over.guarded(B.calculate_atoms, y, q, m)
    want = {"tp": 0, "tn": 0, "fp": 0, "fn": 0}
    for i, j in zip(case["y"], case["q"]):
        want[("t" if i == j else "f") + ("p" if j == m else "n")] += 1
    if {k: a[k] for k in want} != want:
        raise Violation("atoms %s, counted %s" % (a, want), sig="atoms")
    return {"nontrivial": len(set(case["y"])) > 1}


def tasks(tier):
    n = 1500 if tier == "quick" else 25000
    out = []
    for i in range(3):
        out += [Task("counts#%d" % i, count_case, eval_counts, n),
                Task("vectors#%d" % i, vec_case, eval_vec, n, cost=4)]
    return out + [Task("atoms", lab_case, eval_lab, n)]


RUNNER = Runner(
    "C16", "",
    "one case = confusion counts (up to 10^9) or a vector of test labels and "
    "probabilities; non-trivial = distinct case with all counts positive, or "
    "with both classes and more than two samples",
    ["labels 0/1 with probabilities of label 1 (confusion counts: any pair)",
     "log-loss clips probabilities at the machine epsilon as scikit-learn does",
     "ties at the 20 percent rank may be broken either way",
     "the uncertainty coefficient is not compared for counts above 10^4 "
     "(cancellation)"], tasks)
