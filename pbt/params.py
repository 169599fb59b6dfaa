"""Parameter strategies for the oversampling techniques (all values drawn are
inside the ranges the constructors document)."""
import inspect
from hypothesis import strategies as st
import smote_variants as sv

ALL = [c.__name__ for c in sv.get_all_oversamplers()]

# cheaper settings for the expensive techniques (documented parameters)
CHEAP = {
    "DEAGO": {"e": 2},
    "DSRBF": {"n_pop": 6, "n_init_pop": 12, "n_iter": 1, "n_sampling_epoch": 1},
    "AMSCO": {"n_pop": 2, "n_iter": 2},
    "IPADE_ID": {"OT": 3, "max_it": 2},
    "SMOTE_PSOBAT": {"maxit": 3},
    "GASMOTE": {"n_pop": 4, "popl3": 2, "Ge": 2},
    "SMOTE_PSO": {"num_it": 2, "n_pop": 3},
    "DSMOTE": {"n_step": 5},
    "NEATER": {"h": 4},
    "SOMO": {"n_iter": 20},
}
# relative cost per sample() call with the settings above
SLOW = {"DEAGO": 40, "E_SMOTE": 12, "IPADE_ID": 15, "AMSCO": 20, "DSRBF": 10,
        "ADG": 6, "SMOTE_AMSR": 5, "MOT2LD": 8, "SMOTE_PSOBAT": 6,
        "GASMOTE": 6, "SOMO": 4, "SMOTE_PSO": 3, "DSMOTE": 2, "LVQ_SMOTE": 4,
        "SMOTE_IPF": 4, "kmeans_SMOTE": 2, "CE_SMOTE": 2, "cluster_SMOTE": 2,
        "DE_oversampling": 2, "SSO": 2, "ISOMAP_Hybrid": 3, "SVM_balance": 2}

PROPORTIONS = [0.0, 0.05, 0.1, 0.25, 0.5, 0.75, 1.0, 1.0, 1.0, 1.3, 1.5, 2.0, 3.0]
NEIGH = [1, 2, 3, 5, 7, 11, 17, 30, 60]
EXT = {
    "n_neighbors": NEIGH, "k_neighbors": NEIGH, "smote_n_neighbors": NEIGH,
    "k1": NEIGH, "k2": NEIGH, "k3": NEIGH, "K": [2, 5, 9, 15, 30, 60],
}
_ok = {}


def neighbour_values(name, k):
    """the values of EXT[k] the technique documents as valid"""
    if (name, k) not in _ok:
        vals = []
        for v in EXT[k]:
            try:
                getattr(sv, name)(**{k: v})
                vals.append(v)
            except ValueError:
                pass
        _ok[name, k] = vals or [5]
    return _ok[name, k]


def valid(name, p):
    """whether the constructor documents these parameters as acceptable"""
    try:
        getattr(sv, name)(**{k: tup(v) for k, v in p.items()})
        return True
    except ValueError:
        return False


_sig = {}


def ctor_params(name):
    if name not in _sig:
        _sig[name] = [p for p in inspect.signature(
            getattr(sv, name).__init__).parameters if p != "self"]
    return _sig[name]


def accepts(name, p):
    return p in ctor_params(name)


_raw = {}


def raw_grid(name):
    if name not in _raw:
        g = getattr(sv, name).parameter_combinations(raw=True)
        _raw[name] = {k: list(v) for k, v in g.items()} \
            if isinstance(g, dict) else {}
    return _raw[name]


def tup(v):
    """JSON lists back to the tuples the constructors take"""
    if isinstance(v, list):
        return tuple(tup(x) for x in v)
    return v


def jsonable(v):
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if hasattr(v, "item"):
        return v.item()
    return v


def ss_strategy(n_dim_max=4, gaussian=False):
    @st.composite
    def _s(draw):
        n_dim = draw(st.integers(1, n_dim_max))
        within = "random"
        if n_dim <= 2:
            within = draw(st.sampled_from(["random", "deterministic"]))
        ss = {"n_dim": n_dim,
              "simplex_sampling": draw(st.sampled_from(
                  ["random", "deterministic", "random"])),
              "within_simplex_sampling": within,
              "gaussian_component": {}}
        if gaussian and draw(st.booleans()):
            ss["gaussian_component"] = {draw(st.sampled_from(
                ["sigma", "sigma", "sigmas"])): draw(
                    st.sampled_from([0.01, 0.1, 1.0]))}
        return ss
    return _s()


def strategy(name, proportions=None, ext=True, ss=True, metric=False,
             gaussian=False, n_dim_max=4, wide=True,
             methods=("cov", "id", "MI_weighted")):
    grid = raw_grid(name)

    @st.composite
    def _s(draw):
        mode = draw(st.sampled_from(
            ["default", "grid", "ext", "ext"] if ext else
            ["default", "grid", "grid"]))
        p = {}
        if mode != "default":
            for k in sorted(grid):
                if k in ("n_jobs", "random_state", "nn_params", "ss_params"):
                    continue
                v = grid[k]
                if isinstance(v, (list, tuple)) and len(v) > 0:
                    p[k] = jsonable(draw(st.sampled_from(list(v))))
        small = wide and mode == "ext" and draw(st.booleans())
        if mode == "ext":
            for k in EXT:
                if k in p and (small or draw(st.booleans())):
                    vals = neighbour_values(name, k)
                    if small:
                        # few neighbours tell more about which ones are used
                        vals = [v for v in vals if v <= 3] or vals
                    p[k] = draw(st.sampled_from(vals))
        if wide and mode == "ext":
            for k, d in numeric(name).items():
                if draw(st.booleans()):
                    v = draw(st.sampled_from([1, 2])) if small and \
                        type(d) is int else around(draw, p.get(k, d))
                    if valid(name, {**p, k: v}):
                        p[k] = v
        if accepts(name, "proportion") and (mode == "ext" or proportions):
            p["proportion"] = draw(st.sampled_from(proportions or PROPORTIONS))
        p.update(CHEAP.get(name, {}))
        if ss and accepts(name, "ss_params") and draw(st.integers(0, 3)) == 0:
            p["ss_params"] = draw(ss_strategy(n_dim_max, gaussian))
        if metric and accepts(name, "nn_params") and draw(st.integers(0, 3)) == 0:
            p["nn_params"] = {"metric": "precomputed",
                              "metric_learning_method": draw(st.sampled_from(
                                  list(methods)))}
        return p
    return _s()


_num = {}


def numeric(name):
    """the numeric parameters of a technique with their defaults"""
    if name not in _num:
        sig = inspect.signature(getattr(sv, name).__init__).parameters
        _num[name] = {
            k: v.default for k, v in sig.items()
            if type(v.default) in (int, float) and k not in (
                "n_jobs", "random_state", "proportion",
                # other names of the proportion
                "beta", "pressure")
            and k not in EXT and k not in CHEAP.get(name, {})}
    return _num[name]


def around(draw, v):
    """a value of the same type in the neighbourhood of v"""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if isinstance(v, int):
        return draw(st.sampled_from([0, 1, 2, 3, 4, max(v - 1, 0), v + 1,
                                     min(2 * v, 40)]))
    return draw(st.sampled_from([0.0, 1.0, round(v * 0.3, 6), round(v * 0.7, 6),
                                 round(v * 1.5, 6), round(v * 4, 6)]))


def build(name, params, random_state=5):
    kw = {}
    for k, v in params.items():
        kw[k] = v if isinstance(v, dict) else tup(v)
    if name in CHEAP:
        # keep the expensive techniques cheap also while shrinking
        for k, v in CHEAP[name].items():
            kw.setdefault(k, v)
    return getattr(sv, name)(random_state=random_state, **{
        k: ({**v} if isinstance(v, dict) else v) for k, v in kw.items()})
