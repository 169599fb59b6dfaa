import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from smote_variants.undersampling import (RandomUndersampling,
                                          OversamplingDrivenUndersampling)
from .. import gen, over
from ..core import Task, Runner, Violation
from .c14 import rows

OVER = [["SMOTE", {}], ["SMOTE", {"n_neighbors": 2}], ["ADASYN", {}],
        ["Borderline_SMOTE1", {}], ["distance_SMOTE", {}],
        ["SMOTE", {"proportion": 0.1}], ["MCT", {}],
        ["polynom_fit_SMOTE_star", {}], ["SMOTE", {"proportion": 0.0}]]


@st.composite
def case_of(draw, kind):
    c = {"kind": kind,
         "ds": draw(gen.dataset(labels=gen.LABELS, forms=gen.FORMS,
                                max_n_min=18, max_gap=40)),
         "rs": draw(st.sampled_from([0, 1, 5, 17, 123456, None])),
         "g": draw(st.integers(0, 99)),
         "calls": draw(st.integers(1, 3))}
    if kind == "driven":
        c["mode"] = draw(st.sampled_from(["random", "farthest"]))
        c["over"] = draw(st.sampled_from(OVER))
        c["ors"] = draw(st.integers(0, 50))
    return c


def build(case):
    if case["kind"] == "random":
        return RandomUndersampling(random_state=case["rs"])
    n, p = case["over"]
    return OversamplingDrivenUndersampling(
        ("smote_variants", n, {**p, "random_state": case["ors"]}),
        mode=case["mode"], random_state=case["rs"])


def evaluate(case):
    X, y, mnl, mjl = gen.materialise(case["ds"])
    X0, y0 = X.copy(), y.copy()
    what = case["kind"] + (" " + case["mode"] if "mode" in case else "")
    n_min, n_maj = int(np.sum(y == mnl)), int(np.sum(y == mjl))
    pool_maj = {}
    for r in rows(X, y):
        pool_maj[r] = pool_maj.get(r, 0) + 1

    def run(g):
        np.random.seed(g)
        obj = over.guarded(build, case)
        st0 = np.random.get_state()[1].tobytes()
        res = [over.guarded(obj.sample, X, y) for _ in range(case["calls"])]
        st1 = np.random.get_state()[1].tobytes()
        if case["rs"] is not None and st0 != st1:
            raise Violation("%s undersampling draws from numpy's global "
                            "generator despite its random_state" % what)
        return res
    try:
        res = run(case["g"])
        res2 = run(case["g"] + 1)
    except over.Raised as e:
        raise Violation("%s undersampling: %s" % (what, e), sig=what + " " + e.sig)
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("%s undersampling modified its input" % what)
    for i, (Xr, yr) in enumerate(res):
        if len(Xr) != len(yr) or Xr.ndim != 2 or Xr.shape[1] != X.shape[1]:
            raise Violation("%s undersampling: shapes %s %s" % (
                what, Xr.shape, yr.shape))
        if np.shares_memory(Xr, X) or np.shares_memory(yr, y):
            raise Violation("%s undersampling: the result aliases the input"
                            % what)
        pool = dict(pool_maj)
        for r in rows(Xr, yr):
            pool[r] = pool.get(r, 0) - 1
            if pool[r] < 0:
                raise Violation("%s undersampling returns a labelled row more "
                                "often than the input holds it" % what,
                                sig=what + " invented")
        k_min, k_maj = int(np.sum(yr == mnl)), int(np.sum(yr == mjl))
        if k_min != n_min:
            raise Violation("%s undersampling: %d of %d minority rows returned"
                            % (what, k_min, n_min), sig=what + " minority")
        if k_maj != n_min:
            raise Violation("%s undersampling: %d majority rows for %d minority "
                            "rows" % (what, k_maj, n_min), sig=what + " balance")
        if not np.array_equal(Xr[yr == mnl], X[y == mnl]):
            raise Violation("%s undersampling changed the minority rows" % what)
        if case["rs"] is not None or case.get("mode") == "farthest":
            if not (np.array_equal(Xr, res2[i][0])
                    and np.array_equal(yr, res2[i][1])):
                raise Violation("%s undersampling with a fixed random_state is "
                                "not reproducible (call %d)" % (what, i + 1),
                                sig=what + " repro")
    tags = [what, "kind:" + case["ds"]["kind"]]
    if case.get("mode") == "farthest" and len(res) == 1:
        n, p = case["over"]
        new = getattr(sv, n)(**p, random_state=case["ors"]).sample(X, y)[0][len(X):]
        A = X[y == mjl].astype(float)
        if len(new):
            d = np.sqrt(((A[:, None] - new[None].astype(float)) ** 2).sum(2)).min(1)
            K = res[0][0][res[0][1] == mjl].astype(float)
            dk = np.sqrt(((K[:, None] - new[None].astype(float)) ** 2).sum(2)).min(1)
            want = np.sort(d)[:n_min]
            if not np.allclose(np.sort(dk), want, rtol=1e-7,
                               atol=1e-7 * max(np.abs(A).max(), 1e-300)):
                raise Violation("distance-driven undersampling keeps majority "
                                "rows at distances %s, the closest are at %s" % (
                                    np.sort(dk).tolist()[-3:],
                                    want.tolist()[-3:]), sig="closest")
            tags.append("closest checked")
    return {"nontrivial": n_maj > n_min, "tags": tags}


@st.composite
def spread_case(draw):
    return {"kind": draw(st.sampled_from(["random", "driven"])),
            "seed": draw(st.integers(0, 10 ** 6)),
            "n_min": draw(st.integers(2, 5)), "n_maj": draw(st.integers(6, 9)),
            "label": draw(st.sampled_from([[0, 1], [1, 0], [4, -2]]))}


def eval_spread(case):
    """over many seeds every majority row is drawn now and then, no row twice"""
    r = np.random.RandomState(case["seed"])
    maj, mn = case["label"]
    X = r.normal(size=(case["n_min"] + case["n_maj"], 2))
    y = np.array([mn] * case["n_min"] + [maj] * case["n_maj"])
    cnt = np.zeros(case["n_maj"])
    for s in range(150):
        if case["kind"] == "random":
            u = RandomUndersampling(random_state=s)
        else:
            u = OversamplingDrivenUndersampling(
                ("smote_variants", "SMOTE", {"random_state": 1}),
                mode="random", random_state=s)
        try:
            Xr, yr = over.guarded(u.sample, X, y)
        except over.Raised as e:
            raise Violation("%s undersampling: %s" % (case["kind"], e))
        for x in Xr[yr == maj]:
            cnt[[i for i in range(case["n_maj"])
                 if np.array_equal(X[case["n_min"] + i], x)]] += 1
    if case["kind"] == "random":
        p = case["n_min"] / case["n_maj"]
        sd = np.sqrt(150 * p * (1 - p))
        if np.any(np.abs(cnt - 150 * p) > 6.5 * sd + 1):
            raise Violation("random undersampling prefers some majority rows: "
                            "drawn %s times in 150 runs" % cnt.tolist())
    return {"tags": ["spread"]}


def tasks(tier):
    n = 900 if tier == "quick" else 12000
    out = []
    for i in range(2):
        out += [Task("random#%d" % i, lambda: case_of("random"), evaluate, n),
                Task("driven#%d" % i, lambda: case_of("driven"), evaluate, n,
                     cost=2)]
    out.append(Task("spread", spread_case, eval_spread, n // 12, cost=30))
    return out


RUNNER = Runner(
    "C15", "",
    "one case = undersampler x mode x driving oversampler x dataset x label "
    "encoding x random state x number of calls; non-trivial = distinct case with "
    "more majority than minority samples",
    ["the driving oversamplers are additive ones"], tasks)
