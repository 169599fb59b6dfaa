import inspect
import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from smote_variants.base import OverSampling, instantiate_obj
from smote_variants import queries
from smote_variants.queries._runtimes import runtimes
from .. import params, over
from ..core import Task, Runner, Violation, dumps

ALL = [c for c in vars(sv).values() if inspect.isclass(c)
       and c.__module__.startswith("smote_variants.oversampling.")
       and hasattr(c, "parameter_combinations") and hasattr(c, "categories")
       and not c.__name__.startswith("_") and c.__name__ != "NoSMOTE"]
FACTS = {}


def facts(c):
    """what a default instance says about itself"""
    if c not in FACTS:
        sig = inspect.signature(c.__init__).parameters
        p = c().get_params()
        FACTS[c] = {
            "proportion": "proportion" in p and "proportion" in sig,
            "metric": OverSampling.cat_metric_learning in c.categories,
            "multi": (OverSampling.cat_changes_majority not in c.categories and
                      OverSampling.cat_dim_reduction not in c.categories and
                      "proportion" in p),
            "ss": p.get("ss_params") if "ss_params" in sig else None}
    return FACTS[c]


WITHIN = ["random", "deterministic", ["random"], ["deterministic"],
          ["random", "deterministic"], []]
NDIM = [1, 2, 3, 4, [1], [2], [1, 3], [2, 3, 4], []]


@st.composite
def query_case(draw):
    q = draw(st.sampled_from(["all", "proportion", "metric", "multi",
                              "simplex", "simplex", "simplex"]))
    c = {"q": q, "n": draw(st.sampled_from(
        [-1, -1, 0, 1, 2, 3, 5, 10, 20, 45, 60, 90, 91, 92, 500]))}
    if q == "multi":
        c["strategy"] = draw(st.sampled_from(
            ["eq_1_vs_many_successive", "equalize_1_vs_many", None]))
    if q == "simplex":
        opt = lambda s: draw(st.one_of(st.none(), s))   # noqa
        c["within"] = opt(st.sampled_from(WITHIN))
        c["exclude"] = opt(st.sampled_from(WITHIN))
        c["gauss"] = opt(st.booleans())
        c["ndim"] = opt(st.sampled_from(NDIM))
    return c


def member(v, spec):
    return v == spec if not isinstance(spec, list) else v in spec


def wanted(case):
    out = []
    for c in ALL:
        f = facts(c)
        q = case["q"]
        if q == "all":
            ok = True
        elif q == "simplex":
            ss = f["ss"]
            ok = ss is not None
            if ok and case["within"] is not None:
                ok = member(ss["within_simplex_sampling"], case["within"])
            if ok and case["exclude"] is not None:
                ok = not member(ss["within_simplex_sampling"], case["exclude"])
            if ok and case["gauss"] is not None:
                ok = bool(ss["gaussian_component"]) == case["gauss"]
            if ok and case["ndim"] is not None:
                ok = member(ss["n_dim"], case["ndim"])
        elif q == "multi" and case["strategy"] is None:
            ok = True
        else:
            ok = f[q]
        if ok:
            out.append(c)
    return out


def ask(case):
    kw = {"n_quickest": case["n"]}
    if case["q"] == "simplex":
        kw.update(within_simplex_sampling=case["within"],
                  exclude_within_simplex_sampling=case["exclude"],
                  with_gaussian_component=case["gauss"],
                  n_dim_range=case["ndim"])
    if case["q"] == "multi":
        kw["strategy"] = case["strategy"]
    fn = {"all": "get_all_oversamplers",
          "proportion": "get_proportion_oversamplers",
          "metric": "get_metric_learning_oversamplers",
          "multi": "get_multiclass_oversamplers",
          "simplex": "get_simplex_sampling_oversamplers"}[case["q"]]
    if case["n"] == -1:
        kw.pop("n_quickest")
    try:
        return over.guarded(getattr(queries, fn), **kw)
    except over.Raised as e:
        raise Violation("query %s: %s" % (dumps(case), e), sig=e.sig)


def eval_query(case):
    got = list(ask(case))
    if len(set(got)) != len(got):
        raise Violation("%s lists a technique twice" % dumps(case),
                        sig="twice")
    want = wanted(case)
    names = lambda s: sorted(c.__name__ for c in s)     # noqa
    if case["n"] >= 0:
        want = sorted(want, key=lambda c: runtimes[c.__name__])[:case["n"]]
        if [c.__name__ for c in got] != [c.__name__ for c in want]:
            raise Violation("%s gives %s, the quickest are %s" % (
                dumps(case), [c.__name__ for c in got],
                [c.__name__ for c in want]), sig="quickest")
    elif set(got) != set(want):
        raise Violation("%s: unexpected %s, missing %s" % (
            dumps(case), names(set(got) - set(want)),
            names(set(want) - set(got))), sig="set")
    res = ask(case)
    if list(res) != got:
        raise Violation("%s: another order at the second call" % dumps(case),
                        sig="order")
    # the list belongs to the caller
    if isinstance(res, list) and res:
        res.clear()
        if list(ask(case)) != got:
            raise Violation("%s: the result is shared between calls" %
                            dumps(case), sig="shared")
    return {"nontrivial": 0 < len(got) < len(ALL), "tags": ["q:" + case["q"]]}


@st.composite
def gen_case(draw):
    names = draw(st.lists(st.sampled_from([c.__name__ for c in ALL] +
                                          ["NoSMOTE"]),
                          min_size=0, max_size=5, unique=True))
    return {"names": names, "n": draw(st.sampled_from([0, 1, 2, 3, 5, 5, 9, 20,
                                                       40])),
            "seed": draw(st.integers(0, 99999)),
            "format": draw(st.sampled_from(["smote_variants", "dict"]))}


def combos(c):
    """the distinct effective parameterisations listed by the class"""
    return c.parameter_combinations()


def eval_gen(case):
    classes = [getattr(sv, n) for n in case["names"]]

    def call(seed):
        try:
            return over.guarded(queries.generate_parameter_combinations,
                                list(classes), n_max_comb=case["n"],
                                result_format=case["format"],
                                random_seed=seed)
        except over.Raised as e:
            raise Violation("parameter combinations %s: %s" % (dumps(case), e),
                            sig=e.sig)
    np.random.seed(case["seed"] % 77)
    s0 = dumps(np.random.get_state()[1])
    got = call(case["seed"])
    if dumps(np.random.get_state()[1]) != s0:
        raise Violation("the global random state is used", sig="global rng")
    np.random.seed(case["seed"] % 77 + 1)
    if dumps(params.jsonable(call(case["seed"]))) != \
            dumps(params.jsonable(got)):
        raise Violation("combinations of seed %d are not reproducible: %s" % (
            case["seed"], dumps(case)), sig="reproducible")
    per = {n: [] for n in case["names"]}
    for g in got:
        if case["format"] == "dict":
            p = g
        else:
            if tuple(g[:2]) != ("smote_variants", g[2].get("class_name")):
                raise Violation("entry %s" % (g,), sig="entry")
            p = g[2]
        if p.get("class_name") not in per:
            raise Violation("combination of %s was not asked for" %
                            p.get("class_name"), sig="entry")
        per[p["class_name"]].append(p)
    more = 0
    for cls in classes:
        n = cls.__name__
        lst = combos(cls)
        want = min(len(lst), case["n"])
        if len(per[n]) != want:
            raise Violation("%d combinations of %s instead of %d (%d exist)" % (
                len(per[n]), n, want, len(lst)), sig="number")
        more += len(lst) > case["n"]
        keys = [dumps(params.jsonable(p)) for p in per[n]]
        if len(set(keys)) != len(keys):
            raise Violation("a combination of %s is listed twice" % n,
                            sig="twice")
        for p in per[n][:6]:
            try:
                obj = over.guarded(instantiate_obj, ("smote_variants", n, p))
            except over.Raised as e:
                raise Violation("%s is not accepted: %s" % (p, e), sig="valid")
            if type(obj) is not cls or dumps(params.jsonable(
                    obj.get_params())) != dumps(params.jsonable(p)):
                raise Violation("%s instantiates to %s" % (
                    p, obj.get_params()), sig="valid")
            if not any(all(dumps(params.jsonable(p.get(k))) == dumps(
                    params.jsonable(v)) for k, v in q.items() if k in p)
                    for q in lst):
                raise Violation("%s is no listed combination of %s" % (p, n),
                                sig="listed")
    return {"nontrivial": more > 0, "tags": ["fmt:" + case["format"]]}


def eval_filters(case):
    from smote_variants.noise_removal import NoiseFilter

    def subs(c):
        for s in c.__subclasses__():
            yield s
            yield from subs(s)
    got = queries.get_all_noisefilters()
    want = {c for c in vars(sv).values() if inspect.isclass(c)
            and issubclass(c, NoiseFilter) and c is not NoiseFilter}
    if len(set(got)) != len(got) or not want <= set(got):
        raise Violation("noise filters %s" % got)
    for c in got:
        combs = c.parameter_combinations() if hasattr(
            c, "parameter_combinations") else [{}]
        for p in combs:
            c(**p)


def tasks(tier):
    q = tier == "quick"
    out = []
    for i in range(4):
        out.append(Task("query#%d" % i, query_case, eval_query,
                        400 if q else 4000))
        out.append(Task("combinations#%d" % i, gen_case, eval_gen,
                        250 if q else 4000, cost=2))
    out.append(Task("filters", lambda: st.just({}), eval_filters, 1))
    return out


RUNNER = Runner(
    "C22", "",
    "one case = one query with its options and number of quickest, or a set of "
    "classes x number x seed x format of parameter combinations; non-trivial = "
    "a proper non-empty selection, or more combinations exist than were asked "
    "for",
    ["the facts about a technique are read off a default instance (constructor "
     "signature, get_params, category tags) and the recorded runtimes",
     "the numbers asked for are -1 (all) or non-negative"], tasks)
