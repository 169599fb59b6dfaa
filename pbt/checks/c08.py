import numpy as np
from hypothesis import strategies as st
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip

PAIRS = [[0, 1], [1, 0], [-1, 1], [1, -1], [3, 7], [7, 3], [5, 0], [-4, -9],
         [2, 1], [1, 2]]

# train a classifier on the labels inside; its solution may depend on the order
# of the class labels, so only order-preserving encodings are judged (named in
# the property)
CLASSIFIER = ["AMSCO", "DSRBF", "GASMOTE", "IPADE_ID", "SMMO", "SMOTE_IPF",
              "SMOTE_PSO", "SMOTE_PSOBAT", "SMOTEWB", "SSO",
              "Supervised_SMOTE", "SVM_balance"]


@st.composite
def case_of(draw, name):
    c = draw(over.over_case(name, ds=dict(min_gap=1, labels=[[0, 1]],
                                          max_gap=35), pk=dict(metric=True,
                                  methods=("cov", "id"))))
    c["labels2"] = draw(st.sampled_from(
        [p for p in PAIRS[1:] if p[0] < p[1] or name not in CLASSIFIER]))
    return c


def evaluate(case):
    name = case["cls"]
    spec = case["ds"]
    X1, y1, mn1, mj1 = gen.materialise(spec)
    X2, y2, mn2, mj2 = gen.materialise({**spec, "labels": case["labels2"]})
    assert np.array_equal(X1, X2) and np.array_equal(y1 == mn1, y2 == mn2)
    res = []
    for X, y in ((X1, y1), (X2, y2)):
        try:
            r = over.run(case, X=X, y=y)
            res.append(over.unpack(case, r))
        except over.Raised as e:
            res.append(e)
    if isinstance(res[0], over.Raised) or isinstance(res[1], over.Raised):
        if isinstance(res[0], over.Raised) and isinstance(res[1], over.Raised):
            raise Skip("raised " + res[0].sig)
        bad = res[0] if isinstance(res[0], over.Raised) else res[1]
        raise Violation("%s samples the data with one pair of labels and fails "
                        "with the other: %s" % (name, bad), sig=name)
    (Xa, ya), (Xb, yb) = res
    if not set(np.unique(yb).tolist()) <= {mn2, mj2}:
        raise Violation("%s returns labels %s for input labels %s" % (
            name, np.unique(yb).tolist(), case["labels2"]), sig=name)
    if Xa.shape != Xb.shape:
        raise Violation("%s: %d rows with labels 0/1, %d rows with labels %s" % (
            name, len(Xa), len(Xb), case["labels2"]), sig=name)
    if not np.array_equal(Xa, Xb):
        raise Violation("%s: rows differ between labels 0/1 and %s" % (
            name, case["labels2"]), sig=name)
    if not np.array_equal(ya == mn1, yb == mn2):
        raise Violation("%s: other rows carry the minority label with labels %s"
                        % (name, case["labels2"]), sig=name)
    return {"nontrivial": len(Xa) != len(X1), "tags": over.tags(case) + [
        "order:" + ("same" if (mn2 > mj2) else "swapped")]}


def tasks(tier):
    base = 90 if tier == "quick" else 1200
    return [Task(n, lambda n=n: case_of(n), evaluate, over.n_for(n, base, 5),
                 cost=params.SLOW.get(n, 1)) for n in groups.ALL]


RUNNER = Runner(
    "C08", "",
    "one case = technique x parameters x imbalanced dataset x second label pair; "
    "non-trivial = distinct case in which the technique changed the data",
    ["class sizes differ (on a tie the label order itself decides which class "
     "is the minority)"], tasks)
