import inspect
import itertools
import numpy as np
from hypothesis import strategies as st
import smote_variants as sv
from smote_variants import noise_removal
from smote_variants.base import ParametersMixin, RandomStateMixin
from .. import params
from ..core import Task, Runner, Violation

# the accepted values of the constructor parameters ("i": integers; in01: the
# closed unit interval); parameters not listed are not judged
TABLE = """
CNNTomekLinks: n_jobs>=1i
CondensedNearestNeighbors: n_jobs>=1i
EditedNearestNeighbors: remove in both|min|maj; n_jobs>=1i
NeighborhoodCleaningRule: n_jobs>=1i
OneSidedSelection: n_jobs>=1i
TomekLinkRemoval: strategy in remove_majority|remove_both; n_jobs>=1i
A_SUWO: proportion>=0; n_neighbors>=1i; n_clus_maj>=1i; c_thres>=0; n_jobs>=1i
ADASYN: n_neighbors>=1i; d_th>=0; beta>=0; n_jobs>=1i; proportion>=0
ADG: proportion>=0; lam>0; mu>0; k>=1i; gamma>0; n_jobs>=1i
ADOMS: proportion>=0; n_neighbors>=1i; n_jobs>=1i
AHC: strategy in min|maj|minmaj; n_jobs>=1i
AMSCO: n_pop>=1i; n_iter>=1i; omega>=0; r1>=0; r2>=0; n_jobs>=1i
AND_SMOTE: proportion>=0; K>=2i; n_jobs>=1i
ANS: proportion>=0; n_jobs>=1i
ASMOBD: proportion>=0; min_samples>=1i; eps>0; eta in01; a>0; smoothing in sigmoid|linear; n_jobs>=1i
Assembled_SMOTE: proportion>=0; n_neighbors>=1i; pop>=1i; thres in01; n_jobs>=1i
Borderline_SMOTE1: proportion>=0; n_neighbors>=1i; k_neighbors>=1i; n_jobs>=1i
Borderline_SMOTE2: proportion>=0; n_neighbors>=1i; k_neighbors>=1i; n_jobs>=1i
CBSO: proportion>=0; n_neighbors>=1i; C_p>0; n_jobs>=1i
CCR: proportion>=0; energy>=0; scaling>=0; n_jobs>=1i
CE_SMOTE: proportion>=0; h>=1i; k>=1i; alpha in01; n_jobs>=1i
cluster_SMOTE: proportion>=0; n_neighbors>=1i; n_clusters>=1i; n_jobs>=1i
CURE_SMOTE: proportion>=0; n_clusters>=1i; noise_th>=0i; n_jobs>=1i
DBSMOTE: proportion>=0; eps>0; min_samples>=1i; n_jobs>=1i
DE_oversampling: proportion>=0; n_neighbors>=2i; crossover_rate in01; similarity_threshold in01; n_clusters>=1i; n_jobs>=1i
DEAGO: proportion>=0; n_neighbors>=1i; e>1i; h>0; sigma>0; n_jobs>=1i
distance_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
DSMOTE: proportion>=0; n_neighbors>=1i; rate in01; n_step>=1i; n_jobs>=1i
DSRBF: proportion>=0; n_neighbors>=1i; i_b>0i; o_b>0i; n_pop>=2i; n_init_pop>=2i; n_iter>=0i; n_sampling_epoch>=1i; n_jobs>=1i
E_SMOTE: proportion>=0; n_neighbors>=1i; min_features>=1i; n_jobs>=1i
Edge_Det_SMOTE: proportion>=0; k>=1i; n_jobs>=1i
G_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
GASMOTE: n_neighbors>=1i; maxn>=1i; n_pop>=1i; pm in01; pr in01; Ge>=1i; n_jobs>=1i
Gaussian_SMOTE: proportion>=0; n_neighbors>=1i; sigma>0; n_jobs>=1i
Gazzah: proportion>=0; n_components>=1i; n_jobs>=1i
IPADE_ID: F>0; G>0; OT>0i; max_it>0i; n_jobs>=1i
ISMOTE: n_neighbors>=1i; minority_weight>=0; n_jobs>=1i
ISOMAP_Hybrid: proportion>=0; n_neighbors>=1i; n_components>=1i; smote_n_neighbors>=1i; n_jobs>=1i
KernelADASYN: proportion>=0; k>=1i; h>0; n_jobs>=1i
kmeans_SMOTE: proportion>=0; n_neighbors>=1i; n_clusters>=1i; irt>=0; n_jobs>=1i
Lee: proportion>=0; n_neighbors>=1i; rejection_level in01; n_jobs>=1i
LLE_SMOTE: proportion>=0; n_neighbors>=2i; n_components>=1i; n_jobs>=1i
LN_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
LVQ_SMOTE: proportion>=0; n_neighbors>=1i; n_clusters>=3i; n_jobs>=1i
MCT: proportion>=0; n_neighbors>=1i; n_jobs>=1i
MDO: proportion>=0; K2>=1i; K1_frac>=0; n_jobs>=1i
MOT2LD: proportion>=0; n_components>=1i; k>=1i; n_jobs>=1i
MSMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
MSYN: pressure>=0; n_neighbors>=1i; n_jobs>=1i; proportion>=0
MWMOTE: proportion>=0; k1>=1i; k2>=1i; k3>=1i; M>=1i; cf_th>=0; cmax>=0; n_jobs>=1i
NDO_sampling: proportion>=0; n_neighbors>=1i; T>=0; n_jobs>=1i
NEATER: proportion>=0; smote_n_neighbors>=1i; b>=1i; alpha>=0; h>=0i; n_jobs>=1i
NRAS: proportion>=0; n_neighbors>=1i; t in01; n_jobs>=1i
NRSBoundary_SMOTE: proportion>=0; n_neighbors>=1i; w>=0; n_jobs>=1i
NT_SMOTE: proportion>=0; n_jobs>=1i
OUPS: proportion>=0; n_jobs>=1i
PDFOS: proportion>=0; n_jobs>=1i
polynom_fit_SMOTE_mesh: proportion>=0
ProWSyn: proportion>=0; n_neighbors>=1i; L>=1i; theta>=0; n_jobs>=1i
Random_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
ROSE: proportion>=0
RWO_sampling: proportion>=0; n_jobs>=1i
Safe_Level_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SDSMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
Selected_SMOTE: proportion>=0; n_neighbors>=1i; perc_sign_attr in01; n_jobs>=1i
SL_graph_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMMO: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOBD: proportion>=0; eta1 in01; t>=0; min_samples>=1i; max_eps>=0; n_jobs>=1i
SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOTE_AMSR: proportion>=0; topology in star|bus|mesh
SMOTE_Cosine: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOTE_D: proportion>=0; k>=1i; n_jobs>=1i
SMOTE_ENN: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOTE_FRST_2T: n_neighbors>=1i; gamma_S>=0; gamma_M>=0; n_jobs>=1i
SMOTE_IPF: proportion>=0; n_neighbors>=1i; n_folds>=2i; k>=1i; p>=0; voting in majority|consensus; n_jobs>=1i
SMOTE_OUT: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOTE_PSO: k>=1i; eps>0; n_pop>=1i; w>=0; c1>=0; c2>=0; num_it>=1i; n_jobs>=1i
SMOTE_PSOBAT: maxit>=1i; c1>=0; c2>=0; c3>=0; alpha>=0; gamma>=0; method in pso|bat; n_jobs>=1i
SMOTE_RSB: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOTE_TomekLinks: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SMOTEWB: proportion>=0; n_iters>=1i; max_depth>=3i; n_jobs>=1i
SN_SMOTE: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SOI_CJ: proportion>=0; n_neighbors>=1i; method in interpolation|jittering; n_jobs>=1i
SOMO: proportion>=0; n_grid>=2i; sigma>0; learning_rate>0; n_iter>=1i; n_jobs>=1i
SPY: n_neighbors>=1i; threshold in01; n_jobs>=1i
SSO: proportion>=0; n_neighbors>=1i; h>=1i; n_iter>=1i; n_jobs>=1i
Stefanowski: strategy in weak_amp|weak_amp_relabel|strong_amp; n_jobs>=1i
SUNDO: n_jobs>=1i
Supervised_SMOTE: proportion>=0; th_lower in01; th_upper in01; n_jobs>=1i
SVM_balance: proportion>=0; n_neighbors>=1i; n_jobs>=1i
SYMPROD: proportion>=0; std_outliers>=1i; k_neighbors>=1i; m_neighbors>=1i; cutoff_threshold>=0.01
TRIM_SMOTE: proportion>=0; n_neighbors>=1i; min_precision in01; n_jobs>=1i
V_SYNTH: proportion>=0; n_components>=1i; n_jobs>=1i
VIS_RST: proportion>=0; n_neighbors>=1i; n_jobs>=1i
polynom_fit_SMOTE_star: proportion>=0
polynom_fit_SMOTE_bus: proportion>=0
polynom_fit_SMOTE_poly: proportion>=0; order>=1i
"""
RANGES = {}
for _l in TABLE.strip().splitlines():
    _c, _r = _l.split(": ")
    RANGES[_c] = {}
    for _s in _r.split("; "):
        for _op in (" in01", " in ", ">=", ">"):
            if _op in _s:
                _p, _b = _s.split(_op, 1)
                RANGES[_c][_p] = (_op.strip(), _b)
                break
# also judged: spelled-out kernels and modes
RANGES["ADG"]["kernel"] = ("kernel", "inner|rbf")
RANGES["G_SMOTE"]["method"] = ("kernel", "linear|non-linear")
RANGES["DSRBF"]["hidden_range"] = ("pair", "1")
BAD_MODES = ["", "nonsense", "MAJORITY", None, 1]
GOOD_STATE = [None, 0, 1, 12345, 2**32 - 1, "RandomState", "np.random"]
BAD_STATE = ["abc", 1.5, [1, 2], {"a": 1}, "5"]


def get_class(name):
    return getattr(sv, name, None) or getattr(noise_removal, name)


def values(rule):
    """strategy of (value, accepted?) pairs"""
    op, b = rule
    if op == "in":
        good = b.split("|")
        bad = BAD_MODES + [g[:-1] for g in good] + [g + "x" for g in good] \
            + [g[0] for g in good] + [g.upper() for g in good]
        bad = [x for x in bad if x not in good]
        return st.one_of(st.sampled_from(good).map(lambda v: [v, True]),
                         st.sampled_from(bad).map(lambda v: [v, False]))
    if op == "kernel":
        plain, par = b.split("|")
        return st.one_of(
            st.just([plain, True]),
            st.sampled_from([1.0, 0.01, 2.0, 1e-9, 1e6]).map(
                lambda v: ["%s_%r" % (par, v), True]),
            st.sampled_from([0.0, -1.0, -1e-9, -5]).map(
                lambda v: ["%s_%r" % (par, v), False]),
            st.sampled_from(["", "nonsense", plain[:-1], plain.upper(),
                             "x" + par + "_1.0"]).map(lambda v: [v, False]))
    if op == "pair":
        lo = st.integers(-3, 9)
        return st.tuples(lo, lo).map(
            lambda t: [list(t), t[0] >= 1 and t[1] >= 1])
    if op == "in01":
        return st.one_of(
            st.sampled_from([0.0, 1.0, 0, 1, 0.5, 1e-12, 1 - 1e-12]).map(
                lambda v: [v, True]),
            st.floats(0, 1).map(lambda v: [v, True]),
            st.sampled_from([-1e-9, 1 + 1e-9, -1, 2, -0.5, 1.5, 100, -1e9]
                            ).map(lambda v: [v, False]))
    integer = b.endswith("i")
    bound = float(b.rstrip("i"))
    if integer:
        bound = int(bound)
        s = st.one_of(st.integers(bound - 3, bound + 3),
                      st.integers(-10**6, 10**6))
    else:
        s = st.one_of(
            st.sampled_from([bound, bound - 1e-9, bound + 1e-9, bound - 1,
                             bound + 1, bound - 0.5, bound + 0.5, 1000.0,
                             -1000.0]),
            st.floats(-1e6, 1e6), st.integers(-3, 3))
    return s.map(lambda v: [v, v >= bound if op == ">=" else v > bound])


@st.composite
def ctor_case(draw, names):
    name = draw(st.sampled_from(names))
    rules = RANGES.get(name, {})
    base = {}
    if name in params.ALL:
        base = draw(params.strategy(name, ss=False))
    ks = draw(st.lists(st.sampled_from(sorted(rules)), min_size=1, max_size=3,
                       unique=True)) if rules else []
    over, ok = {}, True
    for k in ks:
        v, good = draw(values(rules[k]))
        over[k] = v
        ok = ok and good
    base = {k: v for k, v in base.items() if k not in over}
    rs = draw(st.sampled_from([5] * 12 + GOOD_STATE + BAD_STATE)) \
        if accepts(name, "random_state") else None
    return {"cls": name, "base": base, "over": over, "ok": ok, "rs": rs}


def accepts(name, p):
    return p in inspect.signature(get_class(name).__init__).parameters


def eval_ctor(case):
    name = case["cls"]
    kw = {k: (v if isinstance(v, dict) else params.tup(v))
          for k, v in {**case["base"], **case["over"]}.items()}
    ok = case["ok"]
    if accepts(name, "random_state"):
        rs = case["rs"]
        if rs in BAD_STATE:
            ok = False
        kw["random_state"] = (np.random.RandomState(3) if rs == "RandomState"
                              else np.random if rs == "np.random" else rs)
    try:
        obj = get_class(name)(**kw)
    except ValueError as e:
        if ok:
            raise Violation("%s(%s) is rejected: %s" % (name, kw, e),
                            sig="%s rejects %s" % (name, sorted(case["over"])))
        obj = None
    except Exception as e:      # noqa
        raise Violation("%s(%s) raises %s: %s instead of a ValueError" % (
            name, kw, type(e).__name__, e), sig="%s %s" % (
                name, type(e).__name__))
    if obj is not None and not ok:
        raise Violation("%s(%s) is accepted" % (name, kw),
                        sig="%s accepts %s" % (name, sorted(case["over"])))
    if obj is not None:
        got = obj.get_params()
        for k, v in case["over"].items():
            v = params.tup(v)
            if (name, k) in (("ADASYN", "beta"), ("MSYN", "pressure")):
                continue        # replaced by the proportion if that is given
            if k not in got or not (got[k] == v or params.tup(
                    got[k] if isinstance(got[k], (list, tuple))
                    else [got[k]]) == v):
                raise Violation("%s(%s=%r).get_params() holds %r" % (
                    name, k, v, got.get(k)), sig="%s value %s" % (name, k))
    return {"nontrivial": bool(case["over"]) or case["rs"] != 5,
            "tags": ["accepted" if ok else "rejected"]}


NUM = st.one_of(st.integers(-4, 4), st.sampled_from(
    [0.0, -0.0, 1.0, 0.5, 1e-300, -1e-300, 1 + 2**-52, 1 - 2**-53, 1e308,
     float("inf"), float("-inf")]), st.integers(-2**63, 2**63),
    st.floats(allow_nan=False))

HELPERS = {
    "check_less": (1, lambda v, b: v < b),
    "check_less_or_equal": (1, lambda v, b: v <= b),
    "check_greater": (1, lambda v, b: v > b),
    "check_greater_or_equal": (1, lambda v, b: v >= b),
    "check_equal": (1, lambda v, b: v != b),
    "check_less_par": (2, lambda v, b: v < b),
    "check_less_or_equal_par": (2, lambda v, b: v <= b),
    "check_greater_par": (2, lambda v, b: v > b),
    "check_greater_or_equal_par": (2, lambda v, b: v >= b),
    "check_equal_par": (2, lambda v, b: v != b),
    "check_in_range": (3, lambda v, a, b: a <= v <= b),
    "check_out_range": (3, lambda v, a, b: not a <= v <= b),
}


@st.composite
def helper_case(draw):
    h = draw(st.sampled_from(sorted(HELPERS) + ["check_isin", "check_n_jobs"]))
    if h == "check_isin":
        lst = draw(st.lists(st.one_of(st.text("ab", max_size=3),
                                      st.integers(0, 3)), max_size=4))
        v = draw(st.one_of(st.text("ab", max_size=3), st.integers(0, 3),
                           st.none()))
        return {"h": h, "v": v, "a": lst, "b": None}
    if h == "check_n_jobs":
        return {"h": h, "v": draw(st.one_of(st.none(), st.integers(-5, 40))),
                "a": None, "b": None}
    v, a = draw(NUM), draw(NUM)
    b = draw(NUM)
    how = draw(st.integers(0, 3))
    if how == 0:
        a = v
    elif how == 1:
        b = v
    return {"h": h, "v": v, "a": a, "b": b}


def eval_helper(case):
    h, v, a, b = case["h"], case["v"], case["a"], case["b"]
    f = getattr(ParametersMixin(), h)
    if h == "check_isin":
        ok, args = v in list(a), (v, "name", a)
    elif h == "check_n_jobs":
        ok, args = v is not None and v >= 1, (v, "n_jobs")
    else:
        kind, rel = HELPERS[h]
        if kind == 1:
            ok, args = rel(v, a), (v, "x", a)
        elif kind == 2:
            ok, args = rel(v, a), (v, "x", a, "y")
        else:
            a, b = min(a, b), max(a, b)
            ok, args = rel(v, a, b), (v, "x", [a, b])
    try:
        r = f(*args)
        acc = True
        if r is not None:
            raise Violation("%s%s returns %r" % (h, args, r), sig="returns")
    except ValueError:
        acc = False
    except Exception as e:      # noqa
        raise Violation("%s%s raises %s: %s" % (h, args, type(e).__name__, e),
                        sig=h + " " + type(e).__name__)
    if acc != ok:
        raise Violation("%s%s %s" % (h, args, "passes" if acc else "fails"),
                        sig=h)
    return {"nontrivial": not ok or v == a or v == b,
            "tags": [h, "accepted" if ok else "rejected"]}


@st.composite
def grid_case(draw):
    ks = draw(st.lists(st.sampled_from("abcde"), unique=True, max_size=4))
    return {k: draw(st.lists(st.integers(0, 9), max_size=4)) for k in ks}


def eval_grid(case):
    raw = ParametersMixin.generate_parameter_combinations(case, True)
    if raw != case:
        raise Violation("raw grid %s is not %s" % (raw, case), sig="raw")
    got = ParametersMixin.generate_parameter_combinations(case, False)
    ks = sorted(case)
    want = [dict(zip(ks, c)) for c in itertools.product(
        *[case[k] for k in ks])]
    key = lambda d: sorted(d.items())       # noqa
    if sorted(map(key, got)) != sorted(map(key, want)):
        raise Violation("combinations of %s: %s" % (case, got), sig="grid")
    return {"nontrivial": len(want) > 1, "tags": []}


def eval_state(case):
    """the random state helper: equal integers, equal streams; a RandomState
    or the module is used as it is"""
    seed, other = case["seed"], case["other"]
    m = RandomStateMixin(seed)
    a = m.random_state.randint(0, 2**31, 5).tolist()
    b = np.random.RandomState(seed).randint(0, 2**31, 5).tolist()
    if a != b:
        raise Violation("integer %d is not a seed" % seed, sig="seed")
    m.set_random_state(seed)
    if m.random_state.randint(0, 2**31, 5).tolist() != b:
        raise Violation("set_random_state does not restart", sig="restart")
    if m.get_params() != {"random_state": seed}:
        raise Violation("get_params %s" % m.get_params(), sig="params")
    st_ = np.random.RandomState(other)
    m.set_random_state(st_)
    if m.random_state is not st_:
        raise Violation("a RandomState is not used itself", sig="state")
    m.set_random_state(None)
    if m.random_state is not np.random:
        raise Violation("None is not the global generator", sig="global")
    return {"nontrivial": True, "tags": []}


NAMES = sorted(RANGES)


def tasks(tier):
    k = 1 if tier == "quick" else 20
    out = []
    for i in range(8):
        names = NAMES[i::8]
        out.append(Task("constructors %d" % i,
                        lambda names=names: ctor_case(names), eval_ctor,
                        1200 * k, 1))
    out.append(Task("helpers", helper_case, eval_helper, 3000 * k, 1))
    out.append(Task("grids", grid_case, eval_grid, 300 * k, 1))
    out.append(Task("random states", lambda: st.fixed_dictionaries({
        "seed": st.integers(0, 2**32 - 1), "other": st.integers(0, 999)}),
        eval_state, 200 * k, 1))
    return out


RUNNER = Runner(
    "C25", "",
    "one case = a class, valid settings of its other parameters and one to "
    "three parameters with values at, near and far from the bounds of their "
    "range, or one call of a range-checking helper; non-trivial = a judged "
    "parameter is set explicitly",
    ["the table of accepted ranges in pbt/checks/c25.py (written down from the "
     "constructors and their documentation); only integers are tried for "
     "integer parameters, NaN is not tried"], tasks)
