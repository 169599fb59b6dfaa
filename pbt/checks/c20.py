import os
import sys
import time
import random
import signal
import shutil
import contextlib
import threading
import multiprocessing
import numpy as np
from hypothesis import strategies as st
from smote_variants.evaluation import (ThreadTimeoutProcessPool,
                                       TimeoutJobBase)
from .. import over
from ..core import Task, Runner, Violation

LIMIT = 1.2
LIMITS = [0.7, LIMIT]


@contextlib.contextmanager
def perturbed(seed):
    """delays threads at random lines of the module of the pool"""
    if seed is None:
        yield
        return
    home = sys.modules[ThreadTimeoutProcessPool.__module__].__file__
    rnd = random.Random(seed)
    level = rnd.choice([0.05, 0.2, 0.4])
    pid = os.getpid()

    def local(frame, event, arg):
        if os.getpid() == pid and event in ("line", "return") \
                and rnd.random() < level:
            time.sleep(rnd.choice([0.0, 0.001, 0.004, 0.015]))
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename == home else None
    threading.settrace(tracer)
    try:
        yield
    finally:
        threading.settrace(None)


def payload(kind, arg, idx):
    if kind == "bytes":
        return bytes([idx % 251]) * arg
    if kind == "array":
        return np.arange(arg, dtype=float) + idx
    if kind == "dict":
        return {"i": idx, "v": [None, "x" * arg, {"y": [1.5] * 3}]}
    if kind == "none":
        return None
    if kind == "false":
        return [0, False, "", 0.0][arg % 4]
    return ("v", idx, arg)


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def work(spec):
    """runs in the worker process"""
    idx, kind, arg, log, limit = spec
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)

    def note(what):
        os.write(fd, ("%d %s %.6f %d\n" % (
            idx, what, time.monotonic(), os.getpid())).encode())
    # keeps the tracebacks of failing jobs out of the check's output
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    note("start")
    if kind == "raise":
        note("end")
        raise [ValueError, RuntimeError, KeyError, MemoryError][arg % 4]("x")
    if kind == "exit":
        note("end")
        os._exit(arg % 3)
    if kind == "sysexit":
        note("end")
        raise SystemExit(arg % 3)
    if kind == "kill":
        note("end")
        os.kill(os.getpid(), [signal.SIGKILL, signal.SIGSEGV][arg % 2])
    if kind == "unpicklable":
        note("end")
        return lambda: idx
    if kind == "hang":
        while True:
            time.sleep(0.02)
            note("beat")
    if kind == "sleep":
        time.sleep(arg / 1000.0)
    if kind == "edge":
        time.sleep(max(0.0, limit + (arg - 100) / 1000.0))
        note("end")
        return np.full(30000, float(idx))
    if kind == "biglate":
        time.sleep(0.3)
        note("end")
        return np.full(300000, float(idx))
    note("end")
    return payload(kind, arg, idx)


FAIL = ("raise", "exit", "sysexit", "kill", "unpicklable", "hang")


class VPJob(TimeoutJobBase):
    def __init__(self, spec):
        self.spec = spec
        self.timeouts = 0

    def execute(self):
        return work(self.spec)

    def timeout(self):
        self.timeouts += 1
        return ["timeout of", self.spec[0]]


OK = [("int", 1), ("int", 2), ("bytes", 10), ("bytes", 70_000),
      ("bytes", 5_000_000), ("array", 10), ("array", 200_000), ("none", 0),
      ("false", 0), ("false", 1), ("false", 2), ("false", 3), ("dict", 30),
      ("dict", 100_000), ("sleep", 5), ("sleep", 40), ("sleep", 120)]
BAD = [("raise", 0), ("raise", 1), ("raise", 2), ("raise", 3), ("exit", 0),
       ("exit", 1), ("sysexit", 0), ("sysexit", 1), ("kill", 0), ("kill", 1),
       ("unpicklable", 0)]


@st.composite
def case_of(draw, timed):
    job = st.sampled_from(OK + OK + BAD).map(list)
    size = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 14]))
    jobs = [draw(job) for _ in range(size)]
    if timed:
        slow = st.one_of(st.just(["hang", 0]), st.just(["biglate", 0]),
                         st.tuples(st.just("edge"),
                                   st.integers(0, 200)).map(list))
        for s in draw(st.lists(slow, min_size=1, max_size=3)):
            jobs.insert(draw(st.integers(0, len(jobs))), s)
    return {"jobs": jobs, "n": draw(st.integers(1, 6)),
            "timeout": draw(st.sampled_from(LIMITS)) if timed else draw(
                st.sampled_from([None, -1, 0, 60])),
            "sched": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))),
            "api": draw(st.sampled_from(["execute", "execute", "apply"])),
            "split": draw(st.booleans())}


def one_call(case, pool, specs, log):
    if case["api"] == "apply":
        jobs = None
        res = over.guarded(pool.apply, work, specs)
    else:
        jobs = [VPJob(s) for s in specs]
        res = over.guarded(pool.execute, jobs)
    left = multiprocessing.active_children()
    if left:
        raise Violation("%d worker processes survive the call" % len(left),
                        sig="survivor")
    return res, jobs


def check_call(case, specs, res, jobs, events):
    """-> list of specs of short jobs that got their timeout value"""
    if not isinstance(res, (list, tuple)) or len(res) != len(specs):
        raise Violation("%s results for %d jobs" % (
            len(res) if hasattr(res, "__len__") else res, len(specs)),
            sig="number")
    late = []
    for i, (spec, r) in enumerate(zip(specs, res)):
        idx, kind, arg = spec[:3]
        starts = [e for e in events if e[0] == idx and e[1] == "start"]
        if len(starts) != 1 and kind != "hang":
            raise Violation("job %d (%s) was run %d times" % (
                idx, kind, len(starts)), sig="times run")
        if len(starts) > 1:
            raise Violation("job %d was run %d times" % (idx, len(starts)),
                            sig="times run")
        tv = None if case["api"] == "apply" else ["timeout of", idx]
        n_to = None if jobs is None else jobs[i].timeouts
        if kind in FAIL:
            if not same(r, tv):
                raise Violation("failing job %d (%s) gives %s instead of its "
                                "timeout value" % (idx, kind, str(r)[:80]),
                                sig="failed value")
            if n_to is not None and n_to != 1:
                raise Violation("the time-out fallback of job %d (%s) was "
                                "called %d times" % (idx, kind, n_to))
            continue
        want = np.full(30000 if kind == "edge" else 300000, float(idx)) \
            if kind in ("edge", "biglate") else payload(kind, arg, idx)
        if same(r, want):
            if n_to and kind != "edge":
                raise Violation("the time-out fallback of job %d, which "
                                "succeeded, was called" % idx, sig="fallback")
            continue
        if same(r, tv):
            if kind == "edge":
                continue
            if case["timeout"] in LIMITS:
                late.append(idx)
                continue
        raise Violation("job %d (%s %s) gives %s" % (
            idx, kind, arg, str(r)[:100]), sig="value")
    return late


def overlap(events):
    """largest number of jobs that were running at one moment"""
    pts = []
    for idx in {e[0] for e in events}:
        t = [e[2] for e in events if e[0] == idx]
        pts += [(min(t), 1), (max(t), -1)]
    cur = best = 0
    for _, d in sorted(pts):
        cur += d
        best = max(best, cur)
    return best


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def attempt(case):
    tmp = over.scratch("vp-c20-")
    try:
        log = os.path.join(tmp, "log")
        specs = [(i, k, a, log, case["timeout"])
                 for i, (k, a) in enumerate(case["jobs"])]
        pool = ThreadTimeoutProcessPool(case["n"], case["timeout"])
        h = len(specs) // 2 if case["split"] else len(specs)
        late = []
        best = 0
        for part in (specs[:h], specs[h:]) if case["split"] else (specs,):
            try:
                with perturbed(case.get("sched")):
                    res, jobs = one_call(case, pool, part, log)
            except over.Raised as e:
                raise Violation("the pool raises %s" % e, sig=e.sig)
            events = []
            if os.path.exists(log):
                with open(log) as f:
                    for line in f:
                        w = line.split()
                        events.append((int(w[0]), w[1], float(w[2]),
                                       int(w[3])))
            for pid in {e[3] for e in events}:
                if pid != os.getpid() and alive(pid):
                    raise Violation("worker process %d survives" % pid,
                                    sig="survivor")
            late += check_call(case, part, res, jobs, events)
            best = max(best, overlap(events))
        if best > case["n"]:
            raise Violation("%d jobs at once with n_jobs=%d" % (
                best, case["n"]), sig="too many")
        return late, best
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def evaluate(case):
    late, best = attempt(case)
    for _ in range(2):
        if not late:
            break
        # short jobs got the time-out value: believed only if it repeats
        again, _ = attempt(case)
        late = [i for i in late if i in again]
    if late:
        raise Violation("jobs %s finish at once but get their timeout value" %
                        late, sig="lost")
    kinds = {j[0] for j in case["jobs"]}
    return {"nontrivial": len(case["jobs"]) > 1,
            "tags": sorted("job:" + k for k in kinds) + ["overlap:%d" % best] + (
        ["perturbed schedule"] if case.get("sched") is not None else [])}


def tasks(tier):
    q = tier == "quick"
    out = []
    for i in range(4):
        out.append(Task("fast#%d" % i, lambda: case_of(False), evaluate,
                        100 if q else 3000, cost=10, case_limit=45,
                        timeout_is_violation=True))
    for i in range(4):
        out.append(Task("timed#%d" % i, lambda: case_of(True), evaluate,
                        12 if q else 500, cost=100, case_limit=60,
                        timeout_is_violation=True))
    return out


RUNNER = Runner(
    "C20", "",
    "one case = job list (results from None to 5 MB, raising, exiting, killed, "
    "unpicklable, hanging jobs and jobs that end around the limit) x workers x "
    "timeout x interface x one or two calls on one pool x schedule (the "
    "threads of the pool delayed at random lines or not); non-trivial = at "
    "least two jobs",
    ["the time limit of the timed cases is 0.7 or 1.2 s; a short job that got its "
     "timeout value is reported only if it does so three times"], tasks)
