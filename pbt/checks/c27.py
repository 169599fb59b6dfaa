from collections import Counter
import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from smote_variants import visualization as vis
from smote_variants.visualization import _visualization as V
from ..core import Task, Runner, Violation
from .. import over

FLAGS = ["untouched", "new", "removed", "count_changed"]


# ------------------------------------------------------------------- inputs
@st.composite
def vis_case(draw, max_n=12, min_n=2):
    d = draw(st.sampled_from([2, 2, 3, 4]))
    coords = draw(st.permutations(list(range(d))))[:2]
    k = draw(st.sampled_from([2, 2, 2, 3, 4, 5]))
    n = draw(st.integers(max(min_n, k), max_n))
    return {"d": d, "coords": coords if draw(st.booleans()) else [0, 1],
            "k": k, "n": n,
            "step": draw(st.sampled_from([1.0, 0.5, 0.0001, 1e-05, 1000.0])),
            "span": draw(st.sampled_from([1, 2, 8])),
            "n_new": draw(st.integers(0, 8)),
            "n_dup": draw(st.integers(0, 3)),
            "n_rem": draw(st.integers(0, 4)),
            "relabel": draw(st.integers(0, 2)),
            "shuffle": draw(st.booleans()),
            "seed": draw(st.integers(0, 9999))}


def build(case):
    """(X, y, X_samp, y_samp, coordinates): the result of a made-up resampling
    that keeps, duplicates, drops, relabels and adds rows"""
    r = np.random.RandomState(case["seed"])
    n, d, k = case["n"], case["d"], case["k"]
    X = r.randint(-case["span"], case["span"] + 1, (n, d)) * case["step"]
    y = np.concatenate([np.arange(k), r.randint(0, k, n - k)])
    r.shuffle(y)
    keep = np.sort(r.permutation(n)[:max(1, n - case["n_rem"])])
    Xs, ys = X[keep], y[keep].copy()
    for i in range(case["relabel"]):
        ys[i % len(ys)] = (ys[i % len(ys)] + 1) % k
    dup = r.randint(0, n, case["n_dup"])
    new = r.randint(-case["span"], case["span"] + 1,
                    (case["n_new"], d)) * case["step"]
    Xs = np.vstack([Xs, X[dup], new + (0.25 * case["step"] if case["seed"] % 2
                                       else 0.0)])
    ys = np.concatenate([ys, y[dup], r.randint(0, k, case["n_new"])])
    if case["shuffle"]:
        p = r.permutation(len(Xs))
        Xs, ys = Xs[p], ys[p]
    return X, y, Xs, ys, tuple(case["coords"])


def additive(case):
    X, y, _, _, co = build(case)
    r = np.random.RandomState(case["seed"] + 1)
    new = r.normal(size=(case["n_new"], case["d"])) * case["step"]
    return (X, y, np.vstack([X, new]),
            np.concatenate([y, r.randint(1, case["k"], case["n_new"])]), co)


def pts(X, y, co):
    """how often each (rounded projection, label) occurs"""
    Z = np.round(np.asarray(X, dtype=float), 4) + 0.0
    return Counter((Z[i, co[0]] + 0.0, Z[i, co[1]] + 0.0, int(y[i]))
                   for i in range(len(Z)))


def same(name, a, b):
    if not (a.shape == b.shape and np.array_equal(a, b)):
        raise Violation("%s was modified" % name)


def expected_flag(old, new):
    if old == 0:
        return "new"
    if new == 0:
        return "removed"
    return "untouched" if old == new else "count_changed"


# ----------------------------------------------------------------- labeling
def check_labeling(lab, X, y, Xs, ys, co):
    cols = ["coordinate %d" % c for c in co]
    old, new = pts(X, y, co), pts(Xs, ys, co)
    rows = Counter()
    for _, row in lab.iterrows():
        key = (float(row[cols[0]]) + 0.0, float(row[cols[1]]) + 0.0,
               int(row["y"]))
        rows[key] += 1
        if rows[key] > 1:
            raise Violation("point %s occurs in several rows" % (key,))
        if key not in old and key not in new:
            raise Violation("row for %s, which is in neither dataset" % (key,))
        o, n = old.get(key, 0), new.get(key, 0)
        for col, want in (("counts_old", o), ("counts", n)):
            got = row[col]
            got = 0 if got != got else got
            if got != want:
                raise Violation("%s of point %s is %s, it occurs %d times" % (
                    col, key, row[col], want))
        flag = expected_flag(o, n)
        if row["flag"] != flag:
            raise Violation("point %s (%d times before, %d after) flagged %s" % (
                key, o, n, row["flag"]))
        want = {"removed_flag": flag == "removed", "original_flag": o > 0,
                "resampled_flag": flag in ("new", "untouched"),
                "new_flag": flag == "new", "untouched_flag": flag == "untouched",
                "count_changed_flag": flag == "count_changed"}
        for c, w in want.items():
            if bool(row[c]) != w:
                raise Violation("%s of a point flagged %s is %s" % (c, flag, row[c]))
        for c, w in (("indicator_orig", "original" if o else None),
                     ("indicator_new", "new" if n else None)):
            got = row[c] if row[c] == row[c] else None
            if got != w:
                raise Violation("%s of point %s is %s" % (c, key, got))
    missing = set(old) | set(new)
    missing -= set(rows)
    if missing:
        raise Violation("no row for the points %s" % sorted(missing)[:3])


def eval_labeling(case):
    X, y, Xs, ys, co = build(case)
    ref = [a.copy() for a in (X, y, Xs, ys)]
    lab = over.guarded(V.vector_labeling, X, y, Xs, ys, coordinates=co)
    check_labeling(lab, X, y, Xs, ys, co)
    for nm, a, b in zip(("X", "y", "X_samp", "y_samp"), (X, y, Xs, ys), ref):
        same(nm, a, b)
    flags = set(lab["flag"])
    return {"nontrivial": len(flags) > 1, "tags": ["flag:" + f for f in flags]}


# ----------------------------------------------------------------- relabeling
@st.composite
def rel_case(draw):
    return {"y": draw(st.lists(st.integers(0, draw(st.integers(1, 6))),
                               min_size=1, max_size=20)),
            "float": draw(st.booleans())}


def rel_model(y):
    u = sorted(set(int(v) for v in y))
    if len(u) == 2 and u == [0, 1]:
        return ["minority" if v == 1 else "majority" for v in y]
    return ["majority" if v == 0 else "minority %d" % u.index(int(v)) for v in y]


def eval_rel(case):
    y = np.array(case["y"], dtype=float if case["float"] else int)
    u = set(case["y"])
    y0 = y.copy()
    got = list(over.guarded(V.relabel_y, y))
    same("y", y, y0)
    if len(got) != len(y):
        raise Violation("%d labels for %d" % (len(got), len(y)))
    for v, g in zip(y, got):
        if v == 0 and g != "majority":
            raise Violation("label 0 is named %r" % (g,))
        if v == 1 and u == {0, 1} and g != "minority":
            raise Violation("label 1 is named %r" % (g,))
    if len(u) > 2:
        names = {}
        for v, g in zip(case["y"], got):
            if v and not str(g).startswith("minority"):
                raise Violation("label %s is named %r" % (v, g))
            if names.setdefault(v, g) != g:
                raise Violation("label %s has two names" % v)
        if len(set(names.values())) != len(names):
            raise Violation("two labels share one name: %s" % names)
    return {"nontrivial": len(u) > 1, "tags": ["labels:%d" % len(u)]}


# -------------------------------------------------------------------- figures
def legend_colors(ax):
    leg = ax.get_legend()
    out = {}
    for h, t in zip(leg.legend_handles, leg.get_texts()):
        c = (h.get_markerfacecolor() if hasattr(h, "get_markerfacecolor")
             else h.get_facecolor())
        c = matplotlib.colors.to_rgba(c if isinstance(c, str) else
                                      np.ravel(c)[:4])
        out[t.get_text()] = tuple(round(float(v), 3) for v in c[:3])
    return out


def drawn(ax):
    """[(x, y, rgb, alpha, size, marker)] of an axes' scatter collections"""
    out = []
    for c in ax.collections:
        off = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
        fc, sz, paths = c.get_facecolors(), c.get_sizes(), c.get_paths()
        for i, (a, b) in enumerate(off):
            f = fc[i % len(fc)]
            p = paths[i % len(paths)]
            out.append((float(a), float(b),
                        tuple(round(float(v), 3) for v in f[:3]),
                        round(float(c.get_alpha() or f[3]), 2),
                        float(sz[i % len(sz)]),
                        tuple(np.round(p.vertices, 3).ravel())))
    return out


def r4(v):
    return float(np.round(v, 4)) + 0.0


def compare(what, got, want):
    if Counter(got) != Counter(want):
        a, b = Counter(got), Counter(want)
        raise Violation("%s: drawn but not in the data %s, not drawn %s" % (
            what, list((a - b).items())[:3], list((b - a).items())[:3]))


def names(ax, points, colors):
    inv = {}
    for k, v in colors.items():
        if k.startswith(("majority", "minority")):
            inv[v] = k
    return inv


def fig_of(fn, *args, **kw):
    plt.close("all")
    return over.guarded(fn, *args, **kw)


def eval_raw(case):
    X, y, Xs, ys, co = additive(case)
    ref = [a.copy() for a in (X, y, Xs, ys)]
    fig = fig_of(V.plot_raw, X, y, "t", coordinates=co)
    try:
        ax = fig.axes[0]
        inv = names(ax, None, legend_colors(ax))
        got = [(r4(p[0]), r4(p[1]), inv.get(p[2])) for p in drawn(ax)]
        nm = rel_model(y)
        compare("plot_raw", got, [(r4(X[i, co[0]]), r4(X[i, co[1]]), nm[i])
                                  for i in range(len(X))])
        if ax.get_title() != "t":
            raise Violation("title %r" % ax.get_title())
    finally:
        plt.close("all")
    fig = fig_of(V.plot_oversampled, X, y, Xs, ys, title="u", coordinates=co)
    try:
        ax = fig.axes[0]
        inv = names(ax, None, legend_colors(ax))
        groups = {}
        for p in drawn(ax):
            groups.setdefault(p[5], Counter())[
                (r4(p[0]), r4(p[1]), inv.get(p[2]))] += 1
        nm = rel_model(ys)
        want = [Counter(), Counter()]
        for i in range(len(Xs)):
            want[i >= len(X)][(r4(Xs[i, co[0]]), r4(Xs[i, co[1]]), nm[i])] += 1
        want = [w for w in want if w]
        key = lambda c: sorted(map(str, c.items()))
        if sorted(map(key, groups.values())) != sorted(map(key, want)):
            raise Violation("plot_oversampled draws %s, the original and the new "
                            "points are %s" % (list(groups.values()), want))
    finally:
        plt.close("all")
    for nm, a, b in zip(("X", "y", "X_samp", "y_samp"), (X, y, Xs, ys), ref):
        same(nm, a, b)
    return {"nontrivial": case["n_new"] > 0, "tags": ["classes:%d" % case["k"]]}


def check_axes(what, ax, want, inv):
    """want: {(x, y, label name): (count, alpha class, flag)}; positions with
    colours must agree, sizes be ordered like the counts and the flags have
    markers of their own"""
    got = drawn(ax)
    compare(what, [(r4(p[0]), r4(p[1]), inv.get(p[2]), p[3] < 0.99)
                   for p in got],
            [k + (v[1],) for k, v in want.items()])
    size, mark = {}, {}
    for p in got:
        k = (r4(p[0]), r4(p[1]), inv.get(p[2]))
        cnt, faded, flag = want[k]
        if faded:
            continue
        size.setdefault(cnt, set()).add(round(p[4], 3))
        if flag is not None:
            mark.setdefault(flag, set()).add(p[5])
    last = None
    for cnt in sorted(size):
        if len(size[cnt]) != 1:
            raise Violation("%s: sizes %s for the count %s" % (what, size[cnt], cnt))
        s = next(iter(size[cnt]))
        if last is not None and not s > last:
            raise Violation("%s: sizes do not grow with the counts %s" % (what, size))
        last = s
    seen = {}
    for f, m in mark.items():
        if len(m) != 1 or seen.setdefault(next(iter(m)), f) != f:
            raise Violation("%s: markers do not tell the flags apart" % what)


def models(X, y, Xs, ys, co):
    old, new = pts(X, y, co), pts(Xs, ys, co)
    nm = {v: n for v, n in zip(y, rel_model(y))}
    key = lambda k: (k[0], k[1], nm[k[2]])
    first = {key(k): (c, False, None) for k, c in old.items()}
    second = {}
    for k in set(old) | set(new):
        f = expected_flag(old.get(k, 0), new.get(k, 0))
        second[key(k)] = (new.get(k, 0), f == "removed", f)
    return first, second


def eval_sampling(case):
    X, y, Xs, ys, co = build(case)
    ref = [a.copy() for a in (X, y, Xs, ys)]
    lab = over.guarded(V.vector_labeling, X, y, Xs, ys, coordinates=co)
    snap = lab.copy()
    first, second = models(X, y, Xs, ys, co)
    for rep in range(2):
        if case["seed"] % 2:
            fig = fig_of(V.plot_sampling, lab, "t")
        else:
            fig = fig_of(V.plot_sampling_raw, X=X, y=y, X_samp=Xs, y_samp=ys,
                         title="t", coordinates=co)
        try:
            inv = names(None, None, legend_colors(fig.axes[1]))
            check_axes("original dataset", fig.axes[0], first, inv)
            check_axes("sampled dataset", fig.axes[1], second, inv)
        finally:
            plt.close("all")
        if not lab.equals(snap):
            raise Violation("the labeling was modified by plotting it")
    for nm, a, b in zip(("X", "y", "X_samp", "y_samp"), (X, y, Xs, ys), ref):
        same(nm, a, b)
    return {"nontrivial": len(set(snap["flag"])) > 1,
            "tags": ["classes:%d" % case["k"]]}


def eval_comparison(case):
    X, y, Xs, ys, co = build(case)
    _, _, Xt, yt, _ = additive(case)
    l0 = over.guarded(V.vector_labeling, X, y, Xs, ys, co)
    l1 = over.guarded(V.vector_labeling, X, y, Xt, yt, co)
    s0, s1 = l0.copy(), l1.copy()
    first, a = models(X, y, Xs, ys, co)
    _, b = models(X, y, Xt, yt, co)
    for rep in range(2):
        if case["seed"] % 2:
            fig = fig_of(V.plot_comparison, l0, l1, "p", "q")
        else:
            fig = fig_of(V.plot_comparison_raw, X=X, y=y, X_samp0=Xs, y_samp0=ys,
                         X_samp1=Xt, y_samp1=yt, title0="p", title1="q",
                         coordinates=co)
        try:
            inv = names(None, None, legend_colors(fig.axes[2]))
            check_axes("original dataset", fig.axes[0], first, inv)
            check_axes("first sampling", fig.axes[1], a, inv)
            check_axes("second sampling", fig.axes[2], b, inv)
            if [fig.axes[1].get_title(), fig.axes[2].get_title()] != ["p", "q"]:
                raise Violation("titles exchanged")
        finally:
            plt.close("all")
        if not (l0.equals(s0) and l1.equals(s1)):
            raise Violation("a labeling was modified by plotting it")
    return {"nontrivial": len(set(s0["flag"])) > 1,
            "tags": ["classes:%d" % case["k"]]}


def fail_on_raise(fn):
    def inner(case):
        try:
            return fn(case)
        except over.Raised as e:
            raise Violation("%s" % e, sig=e.sig)
    return inner


def tasks(tier):
    k = 1 if tier == "quick" else 12
    return [Task("labeling", lambda: vis_case(24), fail_on_raise(eval_labeling),
                 600 * k),
            Task("relabeling", rel_case, fail_on_raise(eval_rel), 800 * k),
            Task("raw", vis_case, fail_on_raise(eval_raw), 45 * k),
            Task("raw-2", vis_case, fail_on_raise(eval_raw), 45 * k),
            Task("sampling", vis_case, fail_on_raise(eval_sampling), 45 * k),
            Task("sampling-2", vis_case, fail_on_raise(eval_sampling), 45 * k),
            Task("comparison", vis_case, fail_on_raise(eval_comparison), 40 * k),
            Task("comparison-2", vis_case, fail_on_raise(eval_comparison), 40 * k)]


RUNNER = Runner(
    "C27", "",
    "one case = a dataset on a coarse lattice (so that points and projections "
    "coincide) and a made-up resampling of it that keeps, drops, duplicates, "
    "relabels and adds points, drawn twice; non-trivial = at least two kinds of "
    "change (figures of the raw data: at least one new point)",
    ["the figures are read through matplotlib's collections (offsets, face "
     "colours, sizes, marker paths) and legend entries",
     "label 0 is the majority class, two-class labels are 0 and 1"], tasks)
