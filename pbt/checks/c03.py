import inspect
import numpy as np
import smote_variants as sv
from .. import gen, params, over, groups
from ..core import Task, Runner, Violation

NAMES = [n for n in groups.ADDITIVE if n not in groups.COUNT_OTHER
         and params.accepts(n, "proportion")]


def evaluate(case):
    name = case["cls"]
    r = over.run_or_skip(case)
    X, y, mnl, mjl = r["X"], r["y"], r["mnl"], r["mjl"]
    Xs, ys = over.unpack(case, r)
    n_min, n_maj = int(np.sum(y == mnl)), int(np.sum(y == mjl))
    prop = case["params"].get("proportion")
    if prop is None:
        prop = {"MSYN": 1.5}.get(name, 1.0)
    want = max(0, int((n_maj - n_min) * prop))
    got = len(Xs) - len(X)
    if name not in NAMES:
        got = int(np.sum(ys == mnl)) - n_min
        if name in groups.GAIN_AT_MOST and got < want:
            return {"nontrivial": want > 0 and got > 0,
                    "tags": over.tags(case) + ["less"]}
    tags = over.tags(case)
    if name in groups.GAIN_EXACT and got != want:
        # a technique that cannot sample the data returns them unchanged
        if len(Xs) != len(X):
            raise Violation(
                "%s: %d minority samples gained, %d requested" % (
                    name, got, want), sig=name)
    if got == want:
        tags.append("exact")
    elif got == 0 and not (name in groups.ALWAYS_EXACT and n_min > 2):
        tags.append("aborted")
    else:
        raise Violation("%s added %d samples; proportion %s of the difference "
                        "%d - %d asks for %d" % (name, got, prop, n_maj, n_min,
                                                 want))
    return {"nontrivial": want > 0 and got == want, "tags": tags}


def tasks(tier):
    base = 230 if tier == "quick" else 2500
    return [Task(name, lambda name=name: over.over_case(
                name, ds=dict(labels=gen.LABELS, forms=["c", "f32", "int"]),
                pk=dict(metric=True, gaussian=True)),
            evaluate, over.n_for(name, base), cost=params.SLOW.get(name, 1))
            for name in NAMES + groups.GAIN_EXACT + groups.GAIN_AT_MOST]


RUNNER = Runner(
    "C03", "",
    "one case = technique x parameters (incl. proportion 0, small, >1) x dataset "
    "spec; non-trivial = distinct case that asked for and got at least one sample",
    ["calls that raise are judged by C06"], tasks)
