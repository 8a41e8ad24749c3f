"""What else the process did, and the process-wide state, against what an operation gives."""
import gc
import hashlib
import importlib
import locale
import logging
import os
import pkgutil
import random
import signal
import sys
import threading
import warnings

import numpy as np

from .. import core, env
from ..core import Discard, HarnessError, Property

_members = {}


def members():
    """The other properties: each of them can make a run of real work."""
    if not _members:
        from .. import props

        for m in pkgutil.iter_modules(props.__path__):
            if m.name not in ("ambient", "helpers"):  # helpers fork for themselves
                for p in getattr(importlib.import_module("dst.props." + m.name), "PROPERTIES", []):
                    _members[p.id] = p
    return _members


def settings():
    """Process-wide settings, by name."""
    import cv2
    import torch

    mask = os.umask(0o22)
    os.umask(mask)
    return {
        "default dtype": str(torch.get_default_dtype()),
        "gradient recording": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(),
        "anomaly detection": torch.is_anomaly_enabled(),
        "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
        "torch threads": torch.get_num_threads(),
        "torch print options": str(vars(torch._tensor_str.PRINT_OPTS)),
        "numpy errors": str(np.geterr()),
        "numpy print options": str(np.get_printoptions()),
        "opencv threads": cv2.getNumThreads(),
        "opencv optimised": cv2.useOptimized(),
        "working directory": os.getcwd(),
        "environment": hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest(),
        "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "locale": locale.setlocale(locale.LC_ALL),
        "warning filters": [str(f) for f in warnings.filters if f[1] is None and f[3] is None and f[2].__module__ == "builtins"],  # imported packages add others
        "interrupt handler": str(signal.getsignal(signal.SIGINT)),
        "garbage collection": gc.isenabled(),
        "umask": mask,
        "threads": threading.active_count(),
        "root logger": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        "open files": len(os.listdir("/proc/self/fd")),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "exception hook": sys.excepthook is sys.__excepthook__,
    }


def no_warning(*a, **k):
    pass


def generators():
    """Fingerprints of the process-wide random generators."""
    import torch

    s = np.random.get_state()
    return {
        "python": hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
        "numpy": hashlib.md5(s[1].tobytes() + repr(s[2:]).encode()).hexdigest(),
        "torch": hashlib.md5(torch.get_rng_state().numpy().tobytes()).hexdigest(),
    }


def disturb(seed):
    """Leave the random generators somewhere else."""
    import torch

    random.seed(seed)
    np.random.seed(seed % (1 << 32))
    torch.manual_seed(seed)


class Ambient(Property):
    """P01: the result of an operation depends on its arguments, not on what else the process did."""

    id = "P01"
    quick_runs = 2500
    thorough_runs = 200000
    quick_wall = 90
    list_fields = ("before",)
    rule = ("one run = the run of another property, drawn at random (a session, a history of maps or frames, a recording read under disk errors, "
            "a configuration ...), once in a process that has done nothing else and once in a process that did 1-4 other such runs before, with other "
            "states of the random generators; both must leave the same event log, and the process-wide settings as they were; "
            "non-trivial = a fault fired or a preemption happened before or in the run; distinct by what was run after what")
    real = ["all of gradslam, as the runs of the other properties use it, in processes forked for the run"]
    stubs = ["those of the properties whose runs are drawn"]
    assumptions = ["process-wide settings are those listed in ambient.settings()"]
    expected_probes = ("after-faults", "same-property-before", "random-state-moved", "failed-run-before")
    run_wall = 400

    NO_RNG = ("V01",)  # exports with a limit sample at random

    def before_batch(self):
        import sympy  # noqa: F401  torch imports it late, which takes a while

        members()
        gc.freeze()  # forks need not copy what collections would touch

    def generate(self, rng, tier):
        reg = members()
        ids = sorted(reg)

        def pick(pid):
            r = random.Random(rng.randrange(1 << 60))
            r.index = 9
            return {"id": pid, "plan": reg[pid].generate(r, "quick")}

        t = rng.choice(ids)
        before = [pick(t if rng.random() < 0.4 else rng.choice(ids)) for _ in range(rng.randint(1, 3 if tier == "quick" else 8))]
        return {"target": pick(t), "before": before, "rng": rng.choice([None, rng.randrange(1 << 31)])}

    def shrinks(self, plan):
        if plan["rng"] is not None:
            yield core_put(plan, "rng", None)
        prop = members()[plan["target"]["id"]]
        try:
            for c in prop.shrinks(plan["target"]["plan"]):
                yield core_put(plan, "target", {"id": plan["target"]["id"], "plan": c})
        except Exception:
            return

    def once(self, item):
        """One run in this process: its log, statistics, violation, and the settings and generators it changed."""
        import cv2

        warnings.resetwarnings()
        warnings.showwarning = no_warning
        cv2.setNumThreads(2)
        s0, g0 = settings(), generators()
        try:
            run, v = members()[item["id"]].run_plan(item["plan"], record=True)
        except HarnessError as e:
            return {"error": str(e)}
        s1, g1 = settings(), generators()
        if s1["open files"] > s0["open files"]:  # held by exceptions that hold each other
            gc.collect()
            s1["open files"] = len(os.listdir("/proc/self/fd"))
        if any("crash" in k or "interrupt" in k for k in run.stats):
            s1["open files"] = s0["open files"]  # an exception between the body of a with statement and its exit keeps the file
        return {"log": run.log, "stats": dict(run.stats), "v": v, "sim_ms": run.sim_ms, "nontrivial": run.nontrivial,
                "settings": {k: [str(s0[k])[:200], str(s1[k])[:200]] for k in s0 if s0[k] != s1[k]},
                "generators": [k for k in g0 if g0[k] != g1[k]]}

    def execute(self, plan, run):
        target, before = plan["target"], plan["before"]
        what = "%s run" % target["id"]

        def after():
            if plan["rng"] is not None:
                disturb(plan["rng"])
            return [self.once(x) for x in before] + [self.once(target)]

        alone = core.in_child(lambda: self.once(target), 180)
        if alone is None or "error" in alone or alone["v"]:
            raise Discard("the run does not pass on its own")
        late = core.in_child(after, 180)
        if late is None or any("error" in x for x in late):
            raise Discard("a run before it does not finish")
        for x, done in zip(before + [target], late):
            for k, n in done["stats"].items():
                if k.startswith("fault:"):
                    run.stats[k] += n
                    run.probe("after-faults")
            run.nontrivial = run.nontrivial or done["nontrivial"]
            if done["v"]:
                run.probe("failed-run-before")
            if x is not target and x["id"] == target["id"]:
                run.probe("same-property-before")
            run.shape(x["id"], x["plan"].get("_seed"), hashlib.md5(repr(sorted(x["plan"].items(), key=str)).encode()).hexdigest()[:8])
            run.sim_ms += done["sim_ms"]
        run.probe("target-" + target["id"])
        if plan["rng"] is not None:
            run.probe("random-state-moved")
        for name, done in [(what, alone)] + [("%s run" % x["id"], d) for x, d in zip(before + [target], late)]:
            run.check(not done["settings"], "setting-changed", lambda: "%s changed process-wide settings: %s" % (name, done["settings"]))
            if name.split()[0] not in self.NO_RNG:
                run.check(not done["generators"], "generator-changed",
                          lambda: "%s moved the process-wide random generators: %s" % (name, done["generators"]))
        last = late[-1]
        if last["log"] != alone["log"]:
            n = next((i for i, (a, b) in enumerate(zip(alone["log"], last["log"])) if a != b), min(len(alone["log"]), len(last["log"])))
            a, b = (x["log"][n] if n < len(x["log"]) else "nothing" for x in (alone, last))
            run.check(False, "depends-on-history", "%s, event %d: %s after %s, %s in a process that did nothing else%s" % (
                what, n, core.short(b, 500), ", ".join(x["id"] for x in before) or "moving the random generators", core.short(a, 500),
                "; " + core.short(str(last["v"]), 600) if last["v"] else ""))
        run.check(True, "same", "")
        run.event(target["id"], [x["id"] for x in before], last["log"][-1:] or None)
        run.state(target["id"], sorted(x["id"] for x in before))


def core_put(plan, key, value):
    d = dict(plan)
    d[key] = value
    return d


PROPERTIES = [Ambient()]
