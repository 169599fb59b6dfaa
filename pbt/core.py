"""Search driver: tasks -> generated cases -> oracle -> evidence / replay."""
import os
import sys
import json
import time
import signal
import hashlib
import shutil
import tempfile
import traceback

from . import boot

ROOT = boot.ROOT


class Violation(Exception):
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig


class Skip(Exception):
    """the case is outside what this property judges (counted)"""


class _Stop(KeyboardInterrupt):
    """ends a Hypothesis run at once"""


class CaseTimeout(BaseException):
    pass


class Task:
    """name; strategy() -> Hypothesis strategy of JSON cases; evaluate(case) ->
    dict (optional keys: nontrivial: bool, tags: [str]); raises Violation"""

    def __init__(self, name, strategy, evaluate, n, cost=1.0, case_limit=120,
                 timeout_is_violation=False, limits=None):
        self.name = name
        self.strategy = strategy
        self.evaluate = evaluate
        self.n = n
        self.cost = cost
        self.case_limit = case_limit
        self.timeout_is_violation = timeout_is_violation
        self.trace = None


def dumps(o):
    return json.dumps(o, sort_keys=True, default=_np)


def _np(o):
    if hasattr(o, "tolist"):
        return o.tolist()
    return str(o)


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        doc = json.load(f)
    return [e for e in doc["findings"] if e["property"] == pid]


def _alarm(_s, _f):
    raise CaseTimeout()


def judge(task, case, known_sigs):
    """-> (status, info); status in ok, skip, known, violation, timeout"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(task.case_limit))
    try:
        try:
            info = task.evaluate(case) or {}
            return "ok", info
        except Skip as e:
            return "skip", {"why": str(e)}
        except Violation as e:
            if e.sig is not None and e.sig in known_sigs:
                return "known", {"sig": e.sig}
            return "violation", {"msg": e.msg, "sig": e.sig}
        except CaseTimeout:
            return "timeout", {}
        except (OSError, MemoryError):
            raise
        except Exception as e:      # noqa
            # results no oracle can make sense of
            return "violation", {"msg": "%s: %s" % (
                type(e).__name__, "".join(traceback.format_exc()[-900:])),
                "sig": None}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_task(task, seed, known_sigs, t_end, shrink_s=25.0):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase

    res = {"task": task.name, "cases": 0, "distinct": 0, "nontrivial": 0,
           "skipped": 0, "known": {}, "timeouts": 0, "tags": {}, "samples": [],
           "violation": None, "out_of_time": False, "skip_reasons": {}}
    seen = set()
    best = {"case": None, "msg": None, "t0": None, "size": None, "sig": None}

    def body(case):
        if best["case"] is None and time.time() > t_end:
            res["out_of_time"] = True
            raise _Stop()
        if best["case"] is not None and time.time() > best["t0"] + shrink_s:
            raise _Stop()
        key = dumps(case)
        if task.trace:
            with open(task.trace, "w") as f:
                f.write(key)
        status, info = judge(task, case, known_sigs)
        if status == "timeout":
            res["timeouts"] += 1
            if task.timeout_is_violation:
                # confirm once before believing it
                status, info = judge(task, case, known_sigs)
                if status == "timeout":
                    status, info = "violation", {"msg": "no result within %d s"
                                                 % task.case_limit, "sig": None}
                    best.update(case=case, msg=info["msg"], t0=0, size=0)
                    raise _Stop()
        if best["case"] is None:
            res["cases"] += 1
            if status == "skip":
                res["skipped"] += 1
                w = info.get("why", "")[:60]
                res["skip_reasons"][w] = res["skip_reasons"].get(w, 0) + 1
            elif status == "known":
                res["known"][info["sig"]] = res["known"].get(info["sig"], 0) + 1
            elif status == "ok":
                for t in info.get("tags", []):
                    res["tags"][t] = res["tags"].get(t, 0) + 1
                if key not in seen:
                    seen.add(key)
                    res["distinct"] += 1
                    if info.get("nontrivial", True):
                        res["nontrivial"] += 1
                        if len(res["samples"]) < 1:
                            res["samples"].append(case)
        if status == "violation":
            size = len(key)
            if best["case"] is None:
                best["t0"] = time.time()
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, msg=info["msg"], size=size,
                            sig=info.get("sig"))
            raise AssertionError(info["msg"])

    test = given(task.strategy())(body)
    test = settings(max_examples=task.n, database=None, deadline=None,
                    report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    err = None
    try:
        test()
    except _Stop:
        pass
    except AssertionError:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseException as e:      # noqa
        if best["case"] is None:
            err = "".join(traceback.format_exception(e))[-3000:]
    if best["case"] is not None:
        res["violation"] = {"case": best["case"], "msg": best["msg"],
                            "task": task.name, "sig": best["sig"]}
    res["error"] = err
    return res


def _child(task, seed, sigs, t_end, shrink_s, out):
    """body of one forked worker: run one task, leave its result in a file"""
    import faulthandler
    faulthandler.disable()
    task.trace = out + ".case"
    t0 = time.time()
    try:
        res = run_task(task, seed, sigs, t_end, shrink_s)
    except BaseException as e:      # noqa
        res = {"task": task.name, "error": "".join(
            traceback.format_exception(e))[-3000:], "violation": None}
    res["wall"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        f.write(dumps(res))
    os.rename(out + ".tmp", out)


def fork_tasks(tasks, seeds, sigs, t_end, shrink_s, procs, hard_end):
    """generator of results; one forked process per task, `procs` at a time.
    A worker that dies yields {"died": status, "case": last case}"""
    scratch = tempfile.mkdtemp(prefix="vp-")
    todo, live = list(range(len(tasks))), {}
    try:
        while todo or live:
            while todo and len(live) < procs:
                i = todo.pop(0)
                out = os.path.join(scratch, str(i))
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        _child(tasks[i], seeds[i], sigs, t_end, shrink_s, out)
                        code = 0
                    finally:
                        os._exit(code)
                live[pid] = (i, out)
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid, status = 0, 0
            if pid == 0:
                if time.time() > hard_end:
                    for p, (i, out) in list(live.items()):
                        _kill(p)
                    yield {"task": "*", "error": "workers did not finish in time",
                           "violation": None}
                    return
                time.sleep(0.02)
                continue
            if pid not in live:
                continue
            i, out = live.pop(pid)
            if os.path.exists(out):
                with open(out) as f:
                    yield json.load(f)
            else:
                case = None
                try:
                    with open(out + ".case") as f:
                        case = json.load(f)
                except (OSError, ValueError):
                    pass
                yield {"task": tasks[i].name, "died": status, "case": case,
                       "violation": None, "idx": i}
    finally:
        for p in list(live):
            _kill(p)
        shutil.rmtree(scratch, ignore_errors=True)


def _kill(pid):
    for fn in (os.killpg, os.kill):
        try:
            fn(pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def dies_again(task, case):
    """does evaluating the case end the process? (confirmed in a fork)"""
    pid = os.fork()
    if pid == 0:
        try:
            judge(task, case, set())
        finally:
            os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


class Runner:
    def __init__(self, pid, title, rule, assumptions, tasks_fn, level="exploration",
                 pre=None, procs=8):
        self.pid = pid
        self.title = title
        self.rule = rule
        self.assumptions = assumptions
        self.tasks_fn = tasks_fn
        self.level = level
        self.procs = procs

    def replay_path(self, v):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(dumps(v["case"]).encode()).hexdigest()[:10]
        safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in v["task"])
        return os.path.join(d, "%s-%s-%s.json" % (self.pid, safe, h))

    def main(self, argv):
        t0 = time.time()
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            tier = "thorough"
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = seed_of(os.environ["VERIF_SEED"]) % 2 ** 31
        tasks = self.tasks_fn(tier)
        by_name = {}
        for t in tasks:
            by_name.setdefault(t.name.split("#")[0], t)
        if "--replay" in argv:
            with open(argv[argv.index("--replay") + 1]) as f:
                doc = json.load(f)
            task = by_name[doc["task"].split("#")[0]]
            status, info = judge(task, doc["case"], set())
            print(status, info)
            if status == "violation":
                print("VIOLATION property=%s replay=%s" % (
                    self.pid, argv[argv.index("--replay") + 1]))
                return 1
            return 0
        only = None
        if "--only" in argv:
            only = argv[argv.index("--only") + 1].split(",")
            tasks = [t for t in tasks if t.name.split("#")[0] in only]
        keep = "--keep-going" in argv

        # recorded findings: replay each stored case
        known = load_known(self.pid)
        sigs = {e["sig"] for e in known}
        for e in known:
            task = by_name.get(e["task"].split("#")[0])
            if task is None:
                continue
            status, info = judge(task, e["case"], sigs)
            if status == "known":
                print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        budget = float(os.environ.get("VP_BUDGET_S", 0)) or (
            240.0 if tier == "quick" else 3000.0)
        t_end = t0 + budget
        order = sorted(range(len(tasks)), key=lambda i: -tasks[i].cost * tasks[i].n)
        tasks = [tasks[i] for i in order]
        seeds = [seed_of(seed, self.pid, t.name) for t in tasks]
        results, violations, errors = [], [], []
        for r in fork_tasks(tasks, seeds, sigs, t_end,
                            20.0 if tier == "quick" else 60.0, self.procs,
                            t_end + 200):
            if "died" in r:
                t = tasks[r["idx"]]
                if r["case"] is not None and dies_again(t, r["case"]):
                    r["violation"] = {
                        "case": r["case"], "task": t.name, "sig": None,
                        "msg": "the call ends the process (status %d)" % r["died"]}
                else:
                    r["error"] = "worker died, status %d" % r["died"]
            results.append(r)
            if r.get("error"):
                errors.append(r["task"] + ": " + r["error"])
            if r.get("violation"):
                violations.append(r["violation"])
                if not keep:
                    break
        return self.finish(tier, seed, tasks, results, violations, errors, t0)

    def finish(self, tier, seed, tasks, results, violations, errors, t0):
        tags, skips, knowns, samples = {}, {}, {}, []
        tot = dict(cases=0, distinct=0, nontrivial=0, skipped=0, timeouts=0)
        for r in results:
            for k in tot:
                tot[k] += r.get(k, 0)
            for k, v in r.get("tags", {}).items():
                tags[k] = tags.get(k, 0) + v
            for k, v in r.get("skip_reasons", {}).items():
                skips[k] = skips.get(k, 0) + v
            for k, v in r.get("known", {}).items():
                knowns[k] = knowns.get(k, 0) + v
            for s in r.get("samples", []):
                samples.append({"task": r["task"], "case": s})
        oot = [r["task"] for r in results if r.get("out_of_time")]
        ev = {
            "property": self.pid, "tier": tier, "seed": seed,
            "level": self.level,
            "coverage": {
                "evaluations": tot["cases"],
                "distinct_nontrivial": tot["nontrivial"],
                "rule": self.rule,
                "samples": samples[:12],
                "distinct": tot["distinct"],
                "not_judged": tot["skipped"],
                "not_judged_reasons": skips,
                "case_timeouts": tot["timeouts"],
                "tasks": len(tasks), "tasks_finished": len(results),
                "tasks_cut_by_time_budget": oot,
                "classification": dict(sorted(tags.items())),
                "per_task_cases": {r["task"]: r.get("cases", 0) for r in
                                   sorted(results, key=lambda x: x["task"])},
                "known_finding_hits": knowns,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_np)
        for v in violations:
            path = self.replay_path(v)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "task": v["task"],
                           "case": v["case"], "message": v["msg"],
                           "sig": v.get("sig"),
                           "replay_cmd": "./check %s --replay %s" % (
                               self.pid, path)}, f, indent=1, default=_np)
            print("  %s: %s" % (v["task"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s seed=%d: %d cases (%d non-trivial, %d not judged) in %d/%d "
              "tasks, %.1f s, %d violation(s)%s" % (
                  self.pid, tier, seed, tot["cases"], tot["nontrivial"],
                  tot["skipped"], len(results), len(tasks), time.time() - t0,
                  len(violations),
                  ", %d task(s) cut by the time budget" % len(oot) if oot else ""))
        sys.stdout.flush()
        if violations:
            return 1
        if errors:
            print("HARNESS ERROR\n" + "\n".join(errors[:3]), file=sys.stderr)
            return 2
        return 0
