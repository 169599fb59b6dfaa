import copy
import builtins
import os
import shutil
import numpy as np
from hypothesis import strategies as st
from smote_variants.base import (dump_dict, load_dict, check_if_damaged,
                                 equal_dicts, coalesce, coalesce_dict)
from .. import over
from ..core import Task, Runner, Violation, dumps

TEXT = st.text(st.characters(codec="utf-8",
                             exclude_categories=["Cs"]), max_size=8)
KEY = st.one_of(st.sampled_from(["a", "b", "c", "X_train", "k,:}{\""]), TEXT)
NUM = st.one_of(st.integers(-2**70, 2**70), st.integers(-5, 5),
                st.floats(allow_nan=False, allow_infinity=False))
LEAF = st.one_of(st.none(), st.booleans(), NUM, TEXT)
TREE = st.recursive(LEAF, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(KEY, c, max_size=4)),
    max_leaves=12)
DICT = st.dictionaries(KEY, TREE, max_size=6)


@st.composite
def array_spec(draw):
    shape = draw(st.one_of(
        st.tuples(st.integers(1, 6)),
        st.tuples(st.integers(1, 6), st.integers(1, 4)),
        st.tuples(st.integers(1, 3), st.integers(1, 2), st.integers(1, 3)),
        st.tuples(st.sampled_from([400]), st.integers(1, 30))))
    return {"shape": list(shape), "dtype": draw(st.sampled_from(
        ["f8", "f8", "f4", "i8", "i4", "b1"])),
        "kind": draw(st.sampled_from(["normal", "grid", "big", "tiny", "f"])),
        "seed": draw(st.integers(0, 1000))}


def make_array(s):
    rs = np.random.RandomState(s["seed"])
    a = rs.normal(size=s["shape"])
    if s["kind"] == "grid":
        a = np.round(a * 3)
    elif s["kind"] == "big":
        a = a * (1e8 if s["dtype"] != "f8" else 1e300)
    elif s["kind"] == "tiny":
        a = a * 1e-300
    if s["dtype"] == "i4":
        a = np.clip(a, -2e9, 2e9)
    elif s["dtype"] == "i8":
        a = np.clip(a, -9e15, 9e15)
    a = a.astype(s["dtype"])
    return np.asfortranarray(a) if s["kind"] == "f" else a


@st.composite
def file_case(draw):
    ser = draw(st.sampled_from(["json", "pickle"]))
    return {"ser": ser, "d": draw(DICT),
            "arrays": draw(st.dictionaries(
                st.sampled_from(["X_train", "y", "é", "p 1"]), array_spec(),
                max_size=3)),
            "before": draw(st.sampled_from(["none", "none", "longer", "other",
                                            "garbage"])),
            "infer": draw(st.booleans()),
            "cuts": draw(st.lists(st.floats(0, 1), max_size=40)),
            "fault": draw(st.one_of(st.none(), st.none(),
                                    st.integers(0, 400)))}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
                and a.shape == b.shape and np.array_equal(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def damaged(fn, ser):
    try:
        r = check_if_damaged(fn, ser)
    except Exception as e:      # noqa
        raise Violation("check_if_damaged raises %s: %s" % (
            type(e).__name__, e), sig="check raises " + type(e).__name__)
    if r is not True and r is not False and not isinstance(r, np.bool_):
        raise Violation("check_if_damaged returns %r" % (r,), sig="type")
    return bool(r)


class Crash(BaseException):
    pass


class Interrupted:
    """stands in for the builtin open: the first `budget` bytes reach the file,
    then the process 'dies' (what follows has no effect)"""

    def __init__(self, budget):
        self.left, self.real = budget, builtins.open

    def __call__(self, name, mode="r", *a, **k):
        f = self.real(name, mode, *a, **k)
        if "w" not in mode and "a" not in mode and "+" not in mode:
            return f
        outer, write = self, f.write

        class W:
            def __getattr__(s, n):
                return getattr(f, n)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                f.close()

            def fileno(s):
                return f.fileno()

            def write(s, b):
                n = len(b)
                if n > outer.left:
                    write(b[:outer.left])
                    f.flush()
                    outer.left = 0
                    raise Crash()
                outer.left -= n
                return write(b)
        return W()


def eval_file(case):
    ser = case["ser"]
    arrays = {k: make_array(s) for k, s in case["arrays"].items()}
    obj = {k: v for k, v in case["d"].items() if k not in arrays}
    obj.update(arrays)
    keys = sorted(arrays)
    want = {k: (np.asarray(v, dtype=float) if ser == "json" and k in arrays
                else v) for k, v in obj.items()}
    snap = copy.deepcopy(obj)
    tmp = over.scratch("pbt_c24_")
    try:
        fn = os.path.join(tmp, "x." + ser)
        if case["before"] == "longer":
            dump_dict({"old": list(range(5000))}, fn, ser)
        elif case["before"] == "other":
            dump_dict({"a": 1}, fn, ser)
        elif case["before"] == "garbage":
            open(fn, "wb").write(b'{"a": [1, ')
        kw = {} if case["infer"] else {"serialization": ser}
        if case["before"] == "none":
            if not damaged(fn, ser):
                raise Violation("a missing file passes as intact",
                                sig="missing")
        if case["fault"] is not None:
            o = Interrupted(case["fault"])
            builtins.open = o
            try:
                dump_dict(obj, fn, ser, array_to_list_map=list(keys))
            except Crash:
                pass
            finally:
                builtins.open = o.real
            if not damaged(fn, ser):
                got = load_dict(fn, ser, array_to_list_map=[
                    k for k in keys] if case["before"] in ("none", "garbage")
                    else [])
                old = {"longer": {"old": list(range(5000))},
                       "other": {"a": 1}}.get(case["before"])
                if not same(want, got) and not same(
                        {k: v for k, v in want.items() if k not in keys},
                        {k: v for k, v in got.items() if k not in keys}) \
                        and not (old is not None and same(old, got)):
                    raise Violation(
                        "a write interrupted after %d characters leaves a "
                        "file that passes as intact with other contents" %
                        case["fault"], sig="torn")
        try:
            dump_dict(obj, fn, array_to_list_map=list(keys), **kw)
        except Exception as e:      # noqa
            raise Violation("dump_dict: %s: %s" % (type(e).__name__, e),
                            sig="dump " + type(e).__name__)
        if not same(snap, obj) or list(snap) != list(obj):
            raise Violation("dump_dict changed the dictionary", sig="altered")
        if damaged(fn, ser):
            raise Violation("an intact file passes as damaged", sig="intact")
        try:
            got = load_dict(fn, array_to_list_map=list(keys), **kw)
        except Exception as e:      # noqa
            raise Violation("load_dict: %s: %s" % (type(e).__name__, e),
                            sig="load " + type(e).__name__)
        if not same(want, got):
            raise Violation("%s round trip: %s -> %s" % (
                ser, str(want)[:300], str(got)[:300]), sig="roundtrip")
        data = open(fn, "rb").read()
        n = len(data)
        if n <= 400:
            cuts = range(n)
        else:
            cuts = sorted({0, 1, 2, 3, 9, 10, 11, 12, 13, n - 1, n - 2, n - 3,
                           n - 8, n // 2} |
                          {int(f * (n - 1)) for f in case["cuts"]} |
                          set(range(0, 250)))
        ncut = 0
        part = os.path.join(tmp, "part." + ser)
        for c in cuts:
            with open(part, "wb") as f:
                f.write(data[:c])
            ncut += 1
            if not damaged(part, ser):
                raise Violation("%s file cut after %d of %d bytes passes as "
                                "intact" % (ser, c, n), sig="cut")
        if open(fn, "rb").read() != data:
            raise Violation("the file changed by being checked", sig="mod")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"nontrivial": len(obj) > 0,
            "tags": [ser, "before:" + case["before"],
                     "cuts:%s" % ("all" if n <= 400 else "sampled"),
                     "arrays:%d" % len(arrays),
                     "fault" if case["fault"] is not None else "no fault"]}


@st.composite
def pair_case(draw):
    a = draw(DICT)
    b = draw(st.sampled_from(["same", "reorder", "edit", "edit", "edit",
                              "other"]))
    return {"a": a, "b": b, "other": draw(DICT), "path": draw(
        st.lists(st.integers(0, 3), min_size=1, max_size=4)),
        "val": draw(TREE), "op": draw(st.sampled_from(
            ["set", "drop", "add", "empty", "near", "near"])),
        "key": draw(KEY)}


def confusable(v, path):
    """a value that is easily taken for v"""
    if isinstance(v, (dict, list)) and path[-1] % 2:
        return list(v) + [0] if isinstance(v, list) else {**v, "d": 0}
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return [str(v), v + 1, -v, [v]][path[-1] % 4]
    if isinstance(v, str):
        return [v + " ", v.swapcase(), [v], len(v)][path[-1] % 4]
    return [str(v), [v], int(v) + 2 if isinstance(v, bool) else 0,
            {"a": v}][path[-1] % 4]


def edited(d, path, op, val, key):
    """copy of d with one change at the place the path leads to"""
    d = copy.deepcopy(d)
    node = d
    for i in path[:-1]:
        ks = list(node)
        if not ks:
            break
        k = ks[i % len(ks)]
        if not isinstance(node[k], dict):
            break
        node = node[k]
    ks = list(node)
    if op == "add" or not ks:
        node[key] = val
    else:
        k = ks[path[-1] % len(ks)]
        if op == "set":
            node[k] = val
        elif op == "empty":
            node[k] = {}
        elif op == "near":
            node[k] = confusable(node[k], path)
        else:
            del node[k]
    return d


def reordered(d):
    if not isinstance(d, dict):
        return d
    return {k: reordered(d[k]) for k in reversed(list(d))}


def ref_equal(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(ref_equal(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) \
            and len(a) == len(b) and all(
                ref_equal(x, y) for x, y in zip(a, b))
    return a == b


def eval_pair(case):
    a = case["a"]
    if case["b"] == "same":
        b = copy.deepcopy(a)
    elif case["b"] == "reorder":
        b = reordered(a)
    elif case["b"] == "other":
        b = case["other"]
    else:
        b = edited(a, case["path"], case["op"], case["val"], case["key"])
    sa, sb = copy.deepcopy(a), copy.deepcopy(b)
    want = ref_equal(a, b)
    for x, y in ((a, b), (b, a)):
        try:
            got = equal_dicts(x, y)
        except Exception as e:      # noqa
            raise Violation("equal_dicts(%s, %s): %s: %s" % (
                x, y, type(e).__name__, e), sig="equal raises")
        if bool(got) != want:
            raise Violation("equal_dicts(%s, %s) is %s" % (x, y, got),
                            sig="equal")
    if not equal_dicts(a, a):
        raise Violation("%s is not equal to itself" % a, sig="reflexive")
    for x, y in ((a, b), (b, a)):
        got = coalesce_dict(x, y)
        ref = {k: (x[k] if k in x else y[k]) for k in set(x) | set(y)}
        if not same(ref, got):
            raise Violation("coalesce_dict(%s, %s) = %s" % (x, y, got),
                            sig="coalesce_dict")
        if got is x or got is y:
            raise Violation("coalesce_dict returns its argument", sig="alias")
        got["new key"] = 1
        got.pop(next(iter(got)))
    if not same(coalesce_dict(None, b), b):
        raise Violation("coalesce_dict(None, d) is not d", sig="none")
    if not (same(sa, a) and same(sb, b)):
        raise Violation("the arguments changed", sig="altered")
    return {"nontrivial": len(a) > 0 and len(b) > 0,
            "tags": ["equal" if want else "different", "b:" + case["b"]]}


def eval_coalesce(case):
    a, b = case["a"], case["b"]
    got = coalesce(a, b)
    want = b if a is None else a
    if not same(got, want):
        raise Violation("coalesce(%r, %r) = %r" % (a, b, got), sig="coalesce")
    return {"nontrivial": a is not None and not a,
            "tags": ["none" if a is None else "falsy" if not a else "value"]}


def tasks(tier):
    k = 1 if tier == "quick" else 12
    return [Task("files %d" % i, file_case, eval_file, 350 * k, 4)
            for i in range(4)] + [
        Task("dictionaries %d" % i, pair_case, eval_pair, 2500 * k, 1)
        for i in range(2)] + [
        Task("coalesce", lambda: st.fixed_dictionaries({
            "a": st.one_of(st.none(), TREE), "b": TREE}), eval_coalesce,
            2000 * k, 1)]


RUNNER = Runner(
    "C24", "",
    "one case = a dictionary (nested values, arrays) written, read back and "
    "cut at every position (files up to 400 bytes; sampled positions plus the "
    "first 250 otherwise), or a pair of dictionaries that differ in at most "
    "one place; non-trivial = non-empty dictionaries",
    ["the file system keeps what was written", "numpy equality of arrays"],
    tasks, level="fault_enumeration")
