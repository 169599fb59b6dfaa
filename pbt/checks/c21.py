import os
import copy
import shutil
import importlib
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ast import literal_eval
import smote_variants as sv
from smote_variants.base import (all_scores, calculate_all_scores, dump_dict)
from smote_variants.evaluation import (do_parse_results, create_summary,
                                       model_selection, evaluate_oversamplers,
                                       load_dataset_data, datasets_in_cache)
from .. import gen, params, over
from ..core import Task, Runner, Violation, Skip, dumps
from . import c19

SCORES = list(all_scores)
SS = {"n_dim": 2, "simplex_sampling": "random",
      "within_simplex_sampling": "deterministic"}
OS = [["SMOTE", {"proportion": 1.0, "class_name": "SMOTE",
                 "random_state": 5}],
      ["SMOTE", {"proportion": 0.5, "class_name": "SMOTE",
                 "random_state": 5}],
      ["SMOTE", {"proportion": 1.0, "ss_params": SS, "class_name": "SMOTE"}],
      ["ADASYN", {"d_th": 0.9, "class_name": "ADASYN", "random_state": 5,
                  "ss_params": dict(SS, within_simplex_sampling="random")}],
      ["NoSMOTE", {"random_state": None, "class_name": "NoSMOTE"}]]
CL = [["sklearn.tree", "DecisionTreeClassifier", {"max_depth": 3}],
      ["sklearn.tree", "DecisionTreeClassifier", {"max_depth": 5}],
      ["other.tree", "DecisionTreeClassifier", {"max_depth": 3}],
      ["sklearn.neighbors", "KNeighborsClassifier", {}]]


@st.composite
def agg_case(draw):
    combos = draw(st.lists(st.tuples(
        st.sampled_from(["d1", "d2", "a b"]), st.integers(0, len(OS) - 1),
        st.sampled_from(["smote_variants", "own"]),
        st.integers(0, len(CL) - 1)).map(list), min_size=1, max_size=6,
        unique_by=lambda c: tuple(c)))
    return {"combos": combos, "R": draw(st.integers(1, 3)),
            "S": draw(st.integers(1, 4)),
            "uneven": draw(st.booleans()),
            "none": draw(st.sampled_from(["no", "some", "some", "all", "nan"])),
            "src": draw(st.sampled_from(["mem", "mem", "json", "pickle"])),
            "seed": draw(st.integers(0, 2 ** 20))}


def records(case):
    r = np.random.RandomState(case["seed"])
    out = []
    bad = set(r.choice(SCORES, size=4, replace=False).tolist())
    for db, oi, om, ci in case["combos"]:
        S, R = case["S"], case["R"]
        if case["uneven"]:
            R = r.randint(1, R + 1)
        for rep in range(R):
            for fold in range(S):
                sc = {}
                for s in SCORES:
                    v = float(np.round(r.uniform(-5, 5), 3))
                    if r.randint(4) == 0:
                        v = float(r.randint(3))
                    if case["none"] == "some" and r.randint(4) == 0:
                        v = None
                    if case["none"] == "nan" and r.randint(4) == 0:
                        v = float("nan")
                    if case["none"] == "all" and s in bad:
                        v = None
                    sc[s] = v
                yt = r.randint(0, 2, 4)
                out.append({
                    "fold_descriptor": {"name": db, "fold_idx": fold,
                                        "repeat_idx": rep,
                                        "split_idx": rep * S + fold,
                                        "n_splits": S, "n_repeats": R},
                    "oversampler": OS[oi][0],
                    "oversampler_params": copy.deepcopy(OS[oi][1]),
                    "oversampler_module": om,
                    "oversampling_error": None, "oversampling_warning": None,
                    "oversampling_runtime": 0.001 * (rep * S + fold),
                    "oversampling_filname": None, "runtime": 0.5,
                    "y_pred": r.uniform(size=4), "y_test": yt, "scores": sc,
                    "classifier": CL[ci][1],
                    "classifier_params": copy.deepcopy(CL[ci][2]),
                    "classifier_module": CL[ci][0],
                    "error": None, "warning": "[]"})
    p = r.permutation(len(out))
    return [out[i] for i in p]


def ckey(r, as_str):
    f = (lambda v: dumps(literal_eval(v) if isinstance(v, str) else v)) \
        if as_str else dumps
    name = r["dataset"] if "dataset" in r else (
        r["db_name"] if "db_name" in r else r["fold_descriptor"]["name"])
    return (name, r["oversampler_module"], r["oversampler"],
            f(r["oversampler_params"]), r["classifier_module"],
            r["classifier"], f(r["classifier_params"]))


def grouped(recs):
    out = {}
    for r in recs:
        out.setdefault(ckey(r, False), []).append(r)
    return out


def defined(vals):
    return [v for v in vals if v is not None and not np.isnan(v)]


def close(a, b):
    if a is None or (isinstance(a, float) and np.isnan(a)):
        return b is None or np.isnan(b)
    return b is not None and not np.isnan(b) and abs(a - b) <= 1e-9 * max(
        1.0, abs(a))


def eval_agg(case):
    recs = records(case)
    want = grouped(recs)
    tmp = over.scratch("vp-c21-")
    try:
        inp = [copy.deepcopy(r) for r in recs]
        ser = "json"
        if case["src"] != "mem":
            ser = case["src"]
            inp = []
            for i, r in enumerate(recs):
                f = os.path.join(tmp, "evaluation_%d.%s" % (i, ser))
                dump_dict(r, f, ser, ["y_pred", "y_test"])
                inp.append(f)
        raw = over.guarded(do_parse_results, inp, False, ser)
        if raw is not inp and raw != inp:
            raise Violation("results are altered without parsing")
        pdf = over.guarded(do_parse_results, inp, True, ser)
    except over.Raised as e:
        raise Violation("aggregation: %s" % e, sig=e.sig)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    seen = set()
    for _, row in pdf.iterrows():
        k = ckey(row, True)
        if k in seen:
            raise Violation("two rows for %s" % (k,), sig="rows")
        if k not in want:
            raise Violation("row for %s, which was not evaluated" % (k,),
                            sig="rows")
        seen.add(k)
        for s in SCORES:
            v = defined([r["scores"][s] for r in want[k]])
            m = float(np.mean(v)) if v else None
            d = float(np.std(v, ddof=1)) if len(v) > 1 else None
            for what, a in (("mean", m), ("std", d)):
                b = row["%s_%s" % (s, what)]
                b = None if b is None else float(b)
                if not close(a, b):
                    raise Violation("%s_%s of %s is %r instead of %r (%s)" % (
                        s, what, k, b, a, [r["scores"][s] for r in want[k]]),
                        sig=what)
    if len(seen) != len(want):
        raise Violation("%d rows for %d combinations" % (len(seen), len(want)),
                        sig="rows")
    return {"nontrivial": len(recs) > 1, "tags": [case["src"],
                                                  "none:" + case["none"]]}


def eval_summary(case):
    recs = records(case)
    if case["none"] == "nan":
        raise Skip("nan")
    want = grouped(recs)
    cols = ["auc", "acc", "y_pred", "y_test", "oversampling_runtime",
            "oversampling_error", "repeat_idx", "fold_idx", "split_idx"]
    df = pd.DataFrame(copy.deepcopy(recs))
    before = [c for c in df.columns]
    df0 = df.copy(deep=True)
    try:
        pdf = over.guarded(create_summary, df, scores=["auc", "acc"],
                           columns_to_serialize=cols)
    except over.Raised as e:
        raise Violation("create_summary: %s" % e, sig="summary " + e.sig)
    for c in before:
        if dumps(df[c].tolist()) != dumps(df0[c].tolist()):
            raise Violation("create_summary alters column %s of its input" % c)
    seen = set()
    for _, row in pdf.iterrows():
        k = ckey(row, False)
        if k in seen or k not in want:
            raise Violation("summary row %s twice or not evaluated" % (k,),
                            sig="summary rows")
        seen.add(k)
        g = want[k]
        if [len(row[c]) for c in cols] != [len(g)] * len(cols):
            raise Violation("summary of %s: lists of %s entries for %d folds" %
                            (k, [len(row[c]) for c in cols], len(g)),
                            sig="summary length")
        idx = [(int(a), int(b)) for a, b in zip(row["repeat_idx"],
                                                row["fold_idx"])]
        if [b for _, b in idx] != sorted(b for _, b in idx):
            raise Violation("summary of %s is not in fold order: %s" % (k, idx),
                            sig="summary order")
        by = {(r["fold_descriptor"]["repeat_idx"],
               r["fold_descriptor"]["fold_idx"]): r for r in g}
        if sorted(idx) != sorted(by):
            raise Violation("summary of %s has the folds %s" % (k, idx),
                            sig="summary folds")
        for j, i in enumerate(idx):
            r = by[i]
            for c in cols[:6]:
                w = r["scores"][c] if c in r["scores"] else r[c]
                h = row[c][j]
                if w is None:
                    ok = h is None or h != h
                else:
                    ok = np.array_equal(np.asarray(h, dtype=float),
                                        np.asarray(w, dtype=float))
                if not ok:
                    raise Violation("summary of %s, fold %s: %s is %s instead "
                                    "of %s" % (k, i, c, h, w),
                                    sig="summary value")
    if len(seen) != len(want):
        raise Violation("the summary has %d rows for %d combinations" % (
            len(seen), len(want)), sig="summary rows")
    return {"nontrivial": len(recs) > 1, "tags": ["summary"]}


@st.composite
def sel_case(draw):
    c = draw(c19.case_of("mem"))
    c["dss"] = c["dss"][:1]
    c["os"] = c19.subset(draw, c19.OSL[:-3], 4)
    c["cl"] = c19.subset(draw, c19.CLL[:-1], 3)
    c["op"] = draw(c19.run_op(["mem", "json", "pickle"], [1, 1, 1, 2]))
    c["op"].update(swap=False, part="all")
    c["score"] = draw(st.sampled_from(["auc", "auc", "gacc", "f1", "acc",
                                       "p_top20", "bacc", "sens"]))
    return c


def eval_select(case):
    op = case["op"]
    ref = c19.reference(case, op, {})
    oss, cls = c19.tuples(case, op)
    X, y = c19.data_of(case, 0, False)
    tmp = over.scratch("vp-c21-")
    kw = dict(validator_params={"n_repeats": case["R"], "n_splits": case["S"],
                                "random_state": case["vrs"]},
              scaler=c19.scaler(op), n_jobs=op["n_jobs"], clean_up=op["clean"])
    if op["ser"] != "mem":
        kw.update(cache_path=tmp, serialization=op["ser"])
    means = {}
    for k, (yt, p, _, _) in ref.items():
        s = calculate_all_scores(np.asarray(yt), p)[case["score"]]
        means.setdefault((k[3], k[4], k[5], k[6]), []).append(s)
    means = {k: float(np.mean(defined(v))) for k, v in means.items()
             if defined(v)}
    if not means:
        raise Skip("score undefined everywhere")
    try:
        with c19.joblib.parallel_config(backend="threading"):
            with open(os.devnull, "w") as null:
                import contextlib
                with contextlib.redirect_stdout(null):
                    o, c = over.guarded(
                        model_selection,
                        {"data": X, "target": y, "name": "db0"}, oss, cls,
                        score=case["score"], **kw)
                    if op["ser"] != "mem":
                        check_loaded(ref, tmp)
    except over.Raised as e:
        raise Violation("model selection: %s" % e, sig="select " + e.sig)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    best = max(means.values())
    ok = [k for k, v in means.items() if v >= best - 1e-9]
    op_ = dumps(params.jsonable(
        {k: v for k, v in o.get_params().items() if k != "description"}))
    for osp, cm, cn, cp in ok:
        a = literal_eval_json(osp)
        want_c = getattr(importlib.import_module(cm), cn)(
            **literal_eval_json(cp))
        if type(o).__name__ == a["class_name"] and dumps(
                a) == op_ and type(c) is type(want_c) and \
                c.get_params() == want_c.get_params():
            return {"nontrivial": len(means) > 1 and len(ok) < len(means),
                    "tags": ["score:" + case["score"], op["ser"]]}
    raise Violation("model selection by %s returns %s %s / %s; best is %s with "
                    "%r" % (case["score"], type(o).__name__, op_, c, ok[0],
                            best), sig="not best")


def literal_eval_json(s):
    import json
    return json.loads(s)


def check_loaded(ref, tmp):
    """the loader sees exactly the evaluations of the cache"""
    dirs = datasets_in_cache(tmp)
    if set(dirs) != {"db0"} or not os.path.isdir(dirs["db0"]):
        raise Violation("datasets_in_cache gives %s" % dirs)
    df = load_dataset_data(dirs["db0"])
    if len(df) != len(ref):
        raise Violation("%d evaluations loaded, %d were made" % (
            len(df), len(ref)), sig="loaded")
    s = over.guarded(create_summary, df, scores=["acc"],
                     columns_to_serialize=["acc"])
    if sum(len(v) for v in s["acc"]) != len(ref):
        raise Violation("the summary of the cache lists %d of %d folds" % (
            sum(len(v) for v in s["acc"]), len(ref)), sig="summary rows")


def tasks(tier):
    q = tier == "quick"
    out = []
    for i in range(2):
        out.append(Task("aggregate#%d" % i, agg_case, eval_agg,
                        220 if q else 4000, cost=2))
        out.append(Task("summary#%d" % i, agg_case, eval_summary,
                        220 if q else 4000, cost=2))
    for i in range(4):
        out.append(Task("select#%d" % i, sel_case, eval_select,
                        35 if q else 900, cost=20))
    return out


RUNNER = Runner(
    "C21", "",
    "one case = generated evaluation results (datasets, oversamplers, "
    "parameters, classifiers, modules, folds, undefined scores, any order, in "
    "memory or as files), or a model selection on generated data; non-trivial "
    "= more than one result, for selections: combinations differ in the score",
    ["selection: ties within 1e-9 may be resolved either way",
     "scores are averaged as pandas does (sample standard deviation)"], tasks)
