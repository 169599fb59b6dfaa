import numpy as np
from hypothesis import strategies as st
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation, Skip


@st.composite
def case_of(draw, name):
    ds = dict(labels=[[0, 1], [1, 0]], max_n_min=16, max_gap=30)
    c = draw(over.over_case(name, ds=ds, pk=dict(metric=True, gaussian=True),
                            entry=False))
    c["g"] = [draw(st.integers(0, 99)), draw(st.integers(100, 199))]
    c["calls"] = draw(st.sampled_from([[0], [0], [0, 0], [0, 1], [0, 1, 0]]
                                      if params.SLOW.get(name, 1) < 10
                                      else [[0], [0, 0]]))
    if len(c["calls"]) > 1 and 1 in c["calls"]:
        c["ds2"] = draw(gen.dataset(max_n_min=12, max_gap=20))
    c["reseed"] = draw(st.booleans())
    c["noise"] = draw(st.sampled_from([None, "SMOTE", "same", "ROSE"]))
    return c


def history(case):
    """results of the sequence of calls on a fresh instance; an exception is
    part of the result"""
    obj = over.guarded(params.build, case["cls"], case["params"], case["rs"])
    res = []
    for i in case["calls"]:
        X, y, _, _ = gen.materialise(case["ds"] if i == 0 else case["ds2"])
        try:
            out = over.guarded(obj.sample, X, y)
            res.append((np.asarray(out[0]), np.asarray(out[1])))
        except over.Raised as e:
            res.append(e.sig)
    return res


def reseeded(case, first):
    """an instance with a history that is given its seed again behaves like a
    new one"""
    r = np.random.RandomState(case["g"][0])
    n0 = int(r.randint(2, 6))
    Xh = r.normal(size=(2 * n0 + int(r.randint(1, 8)), int(r.randint(1, 4))))
    yh = np.array([1] * n0 + [0] * (len(Xh) - n0))
    obj = over.guarded(params.build, case["cls"], case["params"], case["rs"])
    try:
        over.guarded(obj.sample, Xh, yh)
    except over.Raised:
        pass
    over.guarded(obj.set_params, random_state=case["rs"])
    X, y, _, _ = gen.materialise(case["ds"])
    try:
        out = over.guarded(obj.sample, X, y)
        out = (np.asarray(out[0]), np.asarray(out[1]))
    except over.Raised as e:
        out = e.sig
    if isinstance(out, str) or isinstance(first, str):
        if not (isinstance(out, str) and isinstance(first, str)):
            raise Violation("%s: a new instance and one that sampled other "
                            "data before differ (%s)" % (case["cls"], out),
                            sig=case["cls"])
        return
    for u, v in zip(first, out):
        if u.shape != v.shape or not np.array_equal(
                u, v, equal_nan=u.dtype.kind == "f"):
            raise Violation("%s: a new instance and one that sampled other "
                            "data before and was seeded again differ (shapes "
                            "%s %s)" % (case["cls"], u.shape, v.shape),
                            sig=case["cls"])


def evaluate(case):
    np.random.seed(case["g"][0])
    try:
        r1 = history(case)
    except over.Raised as e:
        raise Skip("raised " + e.sig)
    np.random.seed(case["g"][1])
    if case["noise"]:
        nm = case["cls"] if case["noise"] == "same" else case["noise"]
        if params.SLOW.get(nm, 1) < 10:
            rr = np.random.RandomState(3)
            Xn = rr.normal(size=(19, 2))
            yn = np.array([1] * 6 + [0] * 13)
            try:
                over.guarded(lambda: params.build(nm, {}, 77).sample(Xn, yn))
            except over.Raised:
                pass
    try:
        r2 = history(case)
    except over.Raised as e:
        raise Skip("raised " + e.sig)
    for k, (a, b) in enumerate(zip(r1, r2)):
        if isinstance(a, str) or isinstance(b, str):
            if not (isinstance(a, str) and isinstance(b, str) and a == b):
                raise Violation("%s: call %d gives a result once and fails once"
                                % (case["cls"], k + 1), sig=case["cls"])
            continue
        for u, v in zip(a, b):
            if u.shape != v.shape or u.dtype != v.dtype or \
                    not np.array_equal(u, v, equal_nan=u.dtype.kind == "f"):
                raise Violation(
                    "%s: call %d of the same sequence on an equal instance "
                    "differs (shapes %s %s)" % (case["cls"], k + 1, u.shape,
                                                v.shape), sig=case["cls"])
    if case["reseed"]:
        reseeded(case, r1[0])
    ok = [r for r in r1 if not isinstance(r, str)]
    X0 = gen.materialise(case["ds"])[0]
    return {"nontrivial": bool(ok) and len(ok[0][0]) != len(X0),
            "tags": over.tags(case) + ["calls:%d" % len(case["calls"])]}


def tasks(tier):
    base = 70 if tier == "quick" else 900
    return [Task(n, lambda n=n: case_of(n), evaluate, over.n_for(n, base, 5),
                 cost=params.SLOW.get(n, 1)) for n in groups.ALL]


RUNNER = Runner(
    "C04", "",
    "one case = technique x parameters x sequence of 1-3 calls, executed on two "
    "equal instances with differently seeded global generators and another "
    "oversampler run in between; non-trivial = distinct case whose first call "
    "changed the number of rows",
    ["one machine, one process: differences between BLAS builds are out of scope",
     "expensive techniques run with reduced iteration counts"], tasks)
