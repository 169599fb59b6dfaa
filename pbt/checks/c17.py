import os
import shutil
import numpy as np
from hypothesis import strategies as st
from smote_variants.evaluation import Folding
from smote_variants.base import load_dict
from .. import gen, over
from ..core import Task, Runner, Violation

ARR = ["X_train", "y_train", "X_test", "y_test"]


@st.composite
def case_of(draw, cached):
    n_splits = draw(st.integers(2, 6))
    ds = draw(gen.dataset(labels=[[0, 1], [0, 1], [1, 0], [3, 7], [-1, 1]],
                          max_n_min=14, max_gap=25, max_d=4,
                          forms=["c", "c", "f", "ro", "int"]))
    if ds["n_min"] + ds["gap"] < n_splits:
        ds["gap"] = n_splits - ds["n_min"]
    c = {"ds": ds, "n_splits": n_splits, "n_repeats": draw(st.integers(1, 4)),
         "rs": draw(st.integers(0, 1000)),
         "name": draw(st.sampled_from(["db", "a b", "x.1", "d_json"]))}
    if cached:
        c["ser"] = draw(st.sampled_from(["json", "pickle"]))
        c["ops"] = draw(st.lists(st.one_of(
            st.sampled_from(["files", "files", "cache", "new", "reset"]),
            st.tuples(st.sampled_from(["delete", "empty", "truncate"]),
                      st.integers(0, 30), st.floats(0, 0.99)).map(list)),
            min_size=1, max_size=5))
    return c


def build(case, path=None, ser="json", reset=False):
    X, y, mnl, mjl = gen.materialise(case["ds"])
    f = Folding({"data": X, "target": y, "name": case["name"]},
                cache_path=path, serialization=ser, reset=reset,
                validator_params={"n_repeats": case["n_repeats"],
                                  "n_splits": case["n_splits"],
                                  "random_state": case["rs"]})
    return f, X, y, mnl, mjl


def keys(X, y):
    return [(np.ascontiguousarray(a, dtype=float) + 0.0).tobytes() + b"|" +
            str(float(b)).encode() for a, b in zip(X, y)]


def check_folds(case, folds, X, y, mnl, mjl):
    R, S = case["n_repeats"], case["n_splits"]
    if len(folds) != R * S:
        raise Violation("%d folds for %d repeats of %d splits" % (
            len(folds), R, S), sig="number")
    # rows are identified by their content, duplicates by their number
    allk = sorted(keys(X, y))
    for r in range(R):
        test = []
        for s in range(S):
            i = r * S + s
            f = folds[i]
            d = f["fold_descriptor"]
            want = {"repeat_idx": r, "fold_idx": s, "split_idx": i,
                    "n_repeats": R, "n_splits": S, "name": case["name"],
                    "db_n": len(X), "db_n_attr": X.shape[1]}
            for k, v in want.items():
                if d.get(k) != v:
                    raise Violation("fold %d: descriptor says %s=%r instead of "
                                    "%r" % (i, k, d.get(k), v), sig="desc " + k)
            n_min, n_maj = int(np.sum(y == mnl)), int(np.sum(y == mjl))
            if abs(d.get("imbalance_ratio", -1) - n_maj / n_min) > 1e-9:
                raise Violation("imbalance ratio %r of %d/%d samples" % (
                    d.get("imbalance_ratio"), n_maj, n_min), sig="ratio")
            if sorted(d["label_stats"].values()) != sorted([n_min, n_maj]) or \
                    d["label_stats"]["min_label"] != n_min:
                raise Violation("label_stats %s for %d minority and %d majority "
                                "samples" % (d["label_stats"], n_min, n_maj),
                                sig="stats")
            for a in ("train", "test"):
                if len(f["X_" + a]) != len(f["y_" + a]):
                    raise Violation("fold %d: %d %s rows, %d labels" % (
                        i, len(f["X_" + a]), a, len(f["y_" + a])))
                if len(f["y_" + a]) == 0:
                    raise Violation("fold %d: empty %s part" % (i, a))
            tr = keys(f["X_train"], f["y_train"])
            te = keys(f["X_test"], f["y_test"])
            if sorted(tr + te) != allk:
                raise Violation("fold %d: train and test do not make up the "
                                "dataset" % i, sig="complement")
            test += te
            for lab in (mnl, mjl):
                c, t = int(np.sum(y == lab)), int(np.sum(np.asarray(
                    f["y_test"]) == lab))
                if not c // S <= t <= -(-c // S):
                    raise Violation("fold %d: %d of %d samples of class %s in "
                                    "one of %d test parts" % (i, t, c, lab, S),
                                    sig="stratified")
        if sorted(test) != allk:
            raise Violation("the test parts of repeat %d do not partition the "
                            "dataset" % r, sig="partition")


def same_folds(a, b, what):
    for i, (f, g) in enumerate(zip(a, b)):
        if set(f) != set(g):
            raise Violation("%s: fold %d has the entries %s instead of %s" % (
                what, i, sorted(g), sorted(f)))
        for k in ARR:
            if np.asarray(f[k]).shape != np.asarray(g[k]).shape or \
                    not np.array_equal(f[k], g[k]):
                raise Violation("%s: fold %d: %s differs" % (what, i, k),
                                sig="differs " + k)
        if f["fold_descriptor"] != g["fold_descriptor"]:
            raise Violation("%s: fold %d: descriptor %s instead of %s" % (
                what, i, g["fold_descriptor"], f["fold_descriptor"]),
                sig="differs descriptor")


def eval_memory(case):
    f, X, y, mnl, mjl = build(case)
    X0, y0 = X.copy(), y.copy()
    np.random.seed(case["rs"])
    # folds are collected first: each has to keep its own contents
    folds = over.guarded(lambda: list(f.fold()))
    check_folds(case, folds, X, y, mnl, mjl)
    np.random.seed(case["rs"] + 1)
    same_folds(folds, over.guarded(lambda: list(f.fold())), "second call")
    same_folds(folds, over.guarded(lambda: list(build(case)[0].fold())),
               "second object")
    if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
        raise Violation("folding modified the dataset")
    S = case["n_splits"]
    if case["n_repeats"] > 1 and len(np.unique(X, axis=0)) >= 28 and len(
            {tuple(k for i in range(r * S, r * S + S)
                   for k in sorted(keys(folds[i]["X_test"], folds[i]["y_test"])))
             for r in range(case["n_repeats"])}) == 1:
        raise Violation("all repeats use the same folds", sig="repeats")
    return {"tags": ["balanced" if case["ds"]["gap"] == 0 else "imbalanced"]}


def eval_cached(case):
    tmp = over.scratch("vp-c17-")
    try:
        f, X, y, mnl, mjl = build(case, tmp, case["ser"])
        ref = over.guarded(lambda: list(f.fold()))
        damaged = False
        files = None
        for op in case["ops"] + ["files"]:
            d = os.path.join(tmp, case["name"])
            if op == "files":
                files = over.guarded(f.folding_files)
                if len(files) != len(ref):
                    raise Violation("%d fold files for %d folds (after %s)" % (
                        len(files), len(ref), case["ops"]), sig="file number")
                got = [over.guarded(load_dict, p, case["ser"], ARR)
                       for p in files]
                same_folds(ref, got, "cached folds (%s)" % case["ser"])
                if len({os.path.abspath(p) for p in files}) != len(files):
                    raise Violation("fold files are listed twice")
            elif op == "cache":
                over.guarded(f.cache_foldings)
            elif op in ("new", "reset"):
                f = build(case, tmp, case["ser"], reset=op == "reset")[0]
                if op == "reset" and os.listdir(d):
                    raise Violation("reset leaves %s" % os.listdir(d))
            else:
                have = sorted(os.listdir(d))
                if not have:
                    continue
                p = os.path.join(d, have[op[1] % len(have)])
                damaged = True
                if op[0] == "delete":
                    os.remove(p)
                else:
                    size = 0 if op[0] == "empty" else int(
                        os.path.getsize(p) * op[2])
                    with open(p, "r+b") as h:
                        h.truncate(size)
        return {"nontrivial": True, "tags": [case["ser"]] + (
            ["damaged"] if damaged else [])}
    except over.Raised as e:
        raise Violation("cached folding %s: %s" % (case["ops"], e), sig=e.sig)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tasks(tier):
    n = 400 if tier == "quick" else 6000
    out = []
    for i in range(4):
        out.append(Task("memory#%d" % i, lambda: case_of(False), eval_memory, n))
        out.append(Task("cached#%d" % i, lambda: case_of(True), eval_cached,
                        n // 3, cost=4))
    return out


RUNNER = Runner(
    "C17", "",
    "one case = dataset x validator settings (x serialisation x sequence of "
    "listing, caching, re-creating, resetting, deleting and truncating fold "
    "files); every case counts as non-trivial",
    ["binary datasets; an integer random_state in the validator settings",
     "fold files of other validator settings in the same directory without "
     "reset are not judged"], tasks)
