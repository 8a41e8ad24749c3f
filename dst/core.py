"""Runs, verdicts, minimisation, replay files and evidence.

A *plan* is a JSON value that fully determines one simulated run (workload, schedule,
faults).  ``Property.generate(rng)`` draws a plan from one integer seed;
``Property.execute(plan, run)`` runs the real code under the simulator and reports
through ``run``.  A violation is minimised by re-executing smaller plans, written to a
replay file, and confirmed in a fresh process.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import env


class HarnessError(Exception):
    """The machinery itself misbehaved: never reported as a violation."""


class SimCrash(BaseException):
    """Simulated process crash; not an Exception, so the code under test cannot catch it by accident."""


class Hang(BaseException):
    """No progress within the per-run wall limit."""


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class Discard(Exception):
    """The run met no applicable situation (for instance a numerically tied decision)."""


def short(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Run(object):
    """What one simulated run reports."""

    def __init__(self, record=False):
        self.stats = collections.Counter()
        self.h = hashlib.sha256()
        self.record = record
        self.log = []
        self.states = set()
        self.sig = hashlib.sha256()
        self.sim_ms = 0.0
        self.nontrivial = False
        self.schedule = None  # explicit preemption list actually taken

    def event(self, *parts):
        """An observable event: goes to the event log and its digest, never draws randomness."""
        s = json.dumps(parts, default=str, sort_keys=True)
        self.h.update(s.encode())
        self.h.update(b"\n")
        if self.record:
            self.log.append(s)

    def shape(self, *parts):
        """Part of the run's signature (distinct interleavings/states)."""
        self.sig.update(json.dumps(parts, default=str).encode())

    def state(self, *parts):
        self.states.add(hashlib.md5(json.dumps(parts, default=str).encode()).hexdigest()[:16])

    def fault(self, kind, n=1):
        if n:
            self.stats["fault:" + kind] += n
            self.nontrivial = True

    def probe(self, name, n=1):
        self.stats["probe:" + name] += n

    def count(self, name, n=1):
        self.stats["count:" + name] += n

    def check(self, cond, kind, detail=""):
        self.stats["checks"] += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


def touches_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(env.SRC):
            return True
        tb = tb.tb_next
    return False


class Property(object):
    id = None
    quick_runs = 400
    thorough_runs = 20000
    quick_wall = 60.0
    thorough_wall = 700.0
    run_cpu = 60  # seconds of processor time for one run before it counts as hung; a busy machine must not look like a hang,
    run_wall = 150  # so the wall clock only ends runs that wait for something that never comes
    rule = ""
    real = []
    stubs = []
    assumptions = []
    list_fields = ("ops",)  # plan fields the minimiser drops elements from

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, run):
        raise NotImplementedError

    def shrinks(self, plan):
        """Yields further candidate plans, simpler than `plan`."""
        return iter(())

    def before_batch(self):
        pass

    # -- one run ----------------------------------------------------------
    def run_plan(self, plan, record=False):
        """Returns (run, violation or None). Harness errors propagate."""
        run = Run(record)

        def on_alarm(signum, frame):
            raise Hang()

        old = signal.signal(signal.SIGALRM, on_alarm)
        old_prof = signal.signal(signal.SIGPROF, on_alarm)
        signal.alarm(self.run_wall)
        signal.setitimer(signal.ITIMER_PROF, self.run_cpu)
        v = None
        try:
            try:
                # canonical key order, as a replay file has it; a copy, because the code under test may alias what it is given
                self.execute(json.loads(json.dumps(plan, sort_keys=True)), run)
            except Violation as e:
                v = (e.kind, short(e.detail, 2000))
            except Discard as e:
                run.stats["discarded"] += 1
                run.event("discard", str(e))
            except Hang:
                v = ("no-progress", "run did not finish within %d s of processor time, %d s in all" % (self.run_cpu, self.run_wall))
            except (HarnessError, KeyboardInterrupt):
                raise
            except BaseException as e:
                if touches_repo(e.__traceback__):
                    v = (
                        "unexpected-exception:" + type(e).__name__,
                        short("".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]), 2000),
                    )
                elif isinstance(e, (AttributeError, TypeError, IndexError, KeyError, ValueError)):
                    # what the code under test handed out is not of the kind the oracle can even look at
                    v = ("unusable-result:" + type(e).__name__, short("".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]), 2000))
                else:
                    raise HarnessError(
                        "%s\nplan: %s" % (traceback.format_exc(), short(json.dumps(plan), 3000))
                    )
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, old)
            signal.signal(signal.SIGPROF, old_prof)
        if v:
            run.event("violation", v[0])
        return run, v


def seed_for(pid, master, index):
    return int.from_bytes(
        hashlib.sha256(("%s/%d/%d" % (pid, master, index)).encode()).digest()[:8], "big"
    )


def make_plan(prop, master, index, tier):
    seed = seed_for(prop.id, master, index)
    rng = random.Random(seed)
    rng.index = index
    plan = prop.generate(rng, tier)
    plan["_seed"] = seed
    # plans are JSON: what runs now is what a replay file can hold
    return json.loads(json.dumps(plan, sort_keys=True))


# ---------------------------------------------------------------- workers


LAST_ROUND = 8.0  # seconds the other workers go on after a violation, so that early runs win


def _worker(prop, master, tier, wid, nworkers, nruns, deadline, conn, keep_digests, alarm):
    out = dict(runs=0, stats=collections.Counter(), sigs=set(), states=set(), sim_ms=0.0,
               violations=[], errors=[], nontrivial=0, samples=[], digests={}, discarded=0)
    try:
        for i in range(wid, nruns, nworkers):
            if time.time() > min(deadline, alarm.value + LAST_ROUND):
                break
            try:
                plan = make_plan(prop, master, i, tier)
                run, v = prop.run_plan(plan)
            except HarnessError as e:
                out["errors"].append((i, str(e)))
                if len(out["errors"]) > 2:
                    break
                continue
            except Exception:
                out["errors"].append((i, traceback.format_exc()))
                if len(out["errors"]) > 2:
                    break
                continue
            out["runs"] += 1
            out["stats"].update(run.stats)
            out["sim_ms"] += run.sim_ms
            sig = run.sig.hexdigest()[:16]
            if run.nontrivial and not run.stats["discarded"] and sig not in out["sigs"]:
                out["sigs"].add(sig)
            if run.nontrivial:
                out["nontrivial"] += 1
            if len(out["states"]) < 200000:
                out["states"] |= run.states
            if i in keep_digests:
                out["digests"][i] = run.h.hexdigest()
            if i < 3:
                out["samples"].append({"index": i, "plan": plan})
            if v:
                out["violations"].append((i, v[0], v[1]))
                alarm.value = min(alarm.value, time.time())
                if len(out["violations"]) >= 2:
                    break
    except BaseException:
        out["errors"].append((-1, traceback.format_exc()))
    conn.send(out)
    conn.close()


def run_batch(prop, master, tier, nruns, wall, nworkers, keep_digests=()):
    deadline = time.time() + wall
    ctx = multiprocessing.get_context("fork")
    alarm = ctx.Value("d", float("inf"))  # when the first violation was seen
    procs = []
    sys.stdout.flush()
    for w in range(nworkers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, master, tier, w, nworkers, nruns, deadline, b,
                                              set(keep_digests), alarm))
        p.start()
        b.close()
        procs.append((p, a))
    total = None
    errors = []
    for w, (p, a) in enumerate(procs):
        out = None
        try:
            limit = deadline + prop.run_wall + 30 - time.time()
            if a.poll(max(1.0, limit)):
                out = a.recv()
        except EOFError:
            out = None
        if out is None:
            errors.append((-1, "worker %d died or did not answer (exit code %s)" % (w, p.exitcode)))
            if p.is_alive():
                p.kill()
        else:
            errors += out["errors"]
            if total is None:
                total = out
            else:
                for k in ("runs", "sim_ms", "nontrivial"):
                    total[k] += out[k]
                total["stats"].update(out["stats"])
                total["sigs"] |= out["sigs"]
                total["states"] |= out["states"]
                total["violations"] += out["violations"]
                total["samples"] += out["samples"]
                total["digests"].update(out["digests"])
        p.join(5)
    if total is None:
        raise HarnessError("no worker answered: %r" % errors)
    total["errors"] = errors
    return total


# ---------------------------------------------------------------- minimisation


def minimise(prop, plan, kind, budget_s=60.0, max_execs=600):
    """Greedy delta debugging: keep any smaller plan that still shows the same violation kind."""
    t_end = time.time() + budget_s
    execs = [0]

    def fails(p):
        if time.time() > t_end or execs[0] >= max_execs:
            return None
        execs[0] += 1
        try:
            run, v = prop.run_plan(p)
        except Exception:
            return None
        return run if (v and v[0] == kind) else None

    def get(p, path):
        for k in path.split("."):
            if not isinstance(p, dict) or k not in p:
                return None
            p = p[k]
        return p

    def put(p, path, value):
        p = json.loads(json.dumps(p))
        q = p
        ks = path.split(".")
        for k in ks[:-1]:
            q = q[k]
        q[ks[-1]] = value
        return p

    # 1. turn the seeded schedule into the explicit list of switches that was taken
    if isinstance(plan.get("sched"), dict) and plan["sched"].get("mode") != "explicit":
        run, v = prop.run_plan(plan)
        if run.schedule is not None:
            cand = put(plan, "sched", {"mode": "explicit", "switches": run.schedule})
            if fails(cand):
                plan = cand

    progress = True
    while progress and time.time() < t_end and execs[0] < max_execs:
        progress = False
        for path in tuple(prop.list_fields) + ("sched.switches",):
            lst = get(plan, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            chunk = max(1, n // 2)
            while chunk >= 1:
                i = 0
                while i < len(lst):
                    cand_list = lst[:i] + lst[i + chunk:]
                    cand = put(plan, path, cand_list)
                    if fails(cand):
                        plan, lst = cand, cand_list
                        progress = True
                    else:
                        i += chunk
                    if time.time() > t_end or execs[0] >= max_execs:
                        break
                chunk //= 2
        for cand in prop.shrinks(plan):
            cand = json.loads(json.dumps(cand))
            if cand != plan and fails(cand):
                plan = cand
                progress = True
                break
    return plan, execs[0]


def write_replay(prop, plan, kind, detail, name, history=()):
    os.makedirs(env.REPLAYS, exist_ok=True)
    for h in history:
        prop.run_plan(h)
    run, v = prop.run_plan(plan, record=True)
    path = os.path.join(env.REPLAYS, name)
    d = {"property": prop.id, "kind": kind, "detail": detail, "plan": plan, "digest": run.h.hexdigest(), "events": run.log[-400:]}
    if history:
        d["history"] = list(history)
    with open(path, "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
    return path


def in_child(fn, limit=None):
    """What fn() returns in a fork of this process, which stays as it is; None if the child died or took too long."""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe(False)
    sys.stdout.flush()

    def body():
        b.send(fn())
        b.close()

    p = ctx.Process(target=body)
    p.start()
    b.close()
    out = None
    try:
        if a.poll(limit):
            out = a.recv()
    except EOFError:
        pass
    a.close()
    if out is None and p.is_alive():
        p.kill()
    p.join(5)
    return out


def history_for(prop, master, tier, index, stride, plan, budget_s=150.0):
    """(history, kind, detail): the earlier runs of the same worker without which this run shows no
    violation, as few of them as can be found; None if they do not bring it back either."""
    end = time.time() + budget_s

    def trial(hist):
        def go():
            for h in hist:
                prop.run_plan(h)
            return prop.run_plan(plan)[1] or False

        return in_child(go, max(1.0, end - time.time()))

    before = list(range(index % stride, index, stride))
    hist, v, k = [], False, 1
    while before and not v and time.time() < end:
        hist = [make_plan(prop, master, j, tier) for j in before[-k:]]
        v = trial(hist)
        if k >= len(before):
            break
        k *= 2
    if not v:
        return None
    step = max(1, len(hist) // 2)
    while time.time() < end:
        j, smaller = 0, False
        while j < len(hist) and time.time() < end:
            cand = hist[:j] + hist[j + step:]
            w = trial(cand)
            if w:
                hist, v, smaller = cand, w, True
            else:
                j += step
        if step == 1 and not smaller:
            break
        step = max(1, step // 2)
    return hist, v[0], v[1]


def replay_in_fresh_process(path):
    """True when the replay file reproduces its violation in a new interpreter."""
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "4242"
    p = subprocess.run([sys.executable, "-m", "dst", "replay", path], cwd=env.VERIF, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode == 1, p.stdout.decode(errors="replace")[-2000:]
