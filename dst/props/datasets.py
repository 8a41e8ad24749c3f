"""D01-D05: recordings on a simulated disk, written by simulated sensors, read by simulated workers."""
import contextlib
import copy
import io
import os
import pickle

import numpy as np
import torch

from .. import faults, sched, world
from ..core import Property, SimCrash, Violation
from ..tools import close, diff_text, npr, rng_of, to_np

REAL = ["gradslam.datasets.TUM", "gradslam.datasets.ICL", "gradslam.datasets.Scannet", "gradslam.datasets.tumutils",
        "gradslam.datasets.datautils", "gradslam.geometry.relative_transformation", "imageio and Pillow", "OpenCV resize"]


def describe_spec(spec):
    return "%s %s" % (spec["kind"], {k: v for k, v in spec["opt"].items()})


def fail_unless_equal(kind, where, name, got, want, tol):
    if not close(got, want, tol):
        raise Violation(kind, "%s: %s" % (where, diff_text(name, got, want)))


def check_sample(run, spec, wins, sample, where, kind="wrong-sample"):
    """Compares one sample with the recording; returns its key."""
    run.stats["checks"] += 1
    got = world.split_sample(spec, sample)
    if got is None:
        raise Violation(kind, "%s: %d fields for options %s" % (where, len(sample), spec["opt"]))
    key = world.normal_key(got["name"])
    if key not in wins:
        raise Violation(kind, "%s: the sample is named %r, the recording has no such frames (it has %s)" % (
            where, key, sorted(wins)[:6]))
    want = world.expected(spec, wins[key])
    for f, v in got.items():
        if f == "name":
            continue
        if f == "stamps":
            if v != want["stamps"]:
                raise Violation(kind, "%s: timestamps %r, expected %r" % (where, v, want["stamps"]))
            continue
        fail_unless_equal(kind, "%s (%s)" % (where, key), f, to_np(v), *want[f])
    return key


def pick(u, n):
    return min(int(u * n), n - 1)


class World(object):
    """One recording on the simulated disk."""

    def __init__(self, spec, perm):
        self.spec, self.perm = spec, perm

    def __enter__(self):
        self.err = contextlib.redirect_stderr(io.StringIO())
        self.err.__enter__()
        self.scratch = world.Scratch()
        self.path = os.path.join(self.scratch.__enter__(), self.spec.get("where", ""))
        try:
            os.makedirs(self.path, exist_ok=True)
            self.recs = world.WRITERS[self.spec["kind"]](self.path, self.spec)
            self.disk = faults.Storage(self.path, self.perm)
            self.disk.__enter__()
        except BaseException:
            self.scratch.__exit__()
            raise
        return self

    def __exit__(self, *a):
        self.disk.__exit__()
        self.err.__exit__(None, None, None)
        self.scratch.__exit__()
        return False

    def open(self):
        return world.open_dataset(self.path, self.spec)


# ------------------------------------------------------------------ D01


def parse_stamps(text, posed):
    out = []
    for line in text.split("\n"):
        p = line.split(" ")
        out.append((p[1], p[3], p[5] if posed else None))
    return out


class Association(Property):
    id = "D01"
    quick_runs = 30000
    thorough_runs = 3000000
    list_fields = ("clocks.rgb.jumps", "clocks.depth.jumps", "clocks.pose.jumps", "clocks.rgb.stalls", "clocks.depth.stalls",
                   "clocks.pose.stalls", "badposes")
    real = REAL[:1] + REAL[3:6]
    stubs = ["sensor clocks and recorder (simulated)"]
    rule = ("one run = three simulated sensors (rgb, depth, motion capture) with seeded clock skew, drift, jumps, jitter, stalls, lost, "
            "duplicated and reordered lines and invalid poses, recorded as a TUM sequence and read back through the loader with and "
            "without poses; the frames it returns are checked against the association rules; non-trivial = some clock or message fault, "
            "distinct by fault settings and number of matches")
    assumptions = ["stamps of one sensor are distinct after duplicates of whole lines are removed", "differences within 1e-6 s of each other or of the limit are ties"]
    expected_probes = ("some-matched", "some-unmatched", "invalid-pose-near-frame", "competing-candidates")

    def generate(self, rng, tier):
        n = rng.randint(1, 14 if tier == "quick" else 40)
        hostile = rng.random() < 0.85
        return {"n": n, "seed": rng.randrange(1 << 30), "t0": rng.choice([1305031102.0, 1305031102.0, 999999999.9, 9.9, 99.99, 1000.0]),
                "clocks": {s: world.draw_clock(rng, hostile) for s in ("rgb", "depth", "pose")},
                "period": {"rgb": 0.033, "depth": rng.choice([0.033, 0.033, 0.05]), "pose": rng.choice([0.01, 0.033, 0.008])},
                "badposes": [[round(rng.random(), 3), rng.choice(["nan", "null", "nan%d" % rng.randrange(7)])] for _ in range(rng.choice([0, 0, 1, 3]))],
                "sep": rng.choice([" ", " ", " ", "\t", ",", "  "]), "eol": rng.choice(["\n", "\n", "\n", "\r\n"]),
                "start": rng.choice([None, None, None, 0, 2]), "end": rng.choice([None, None, None, 4, 9]), "perm": rng.randrange(1 << 30)}

    def lines(self, plan, s, n, run):
        c = plan["clocks"][s]
        rs = npr("clock", plan["seed"], s)
        t = world.clock(rs, n, plan["period"][s], c)
        st = [world.stamp_text(plan["t0"], x) for x in t]
        keep = [x for x in st if rs.uniform() >= c.get("loss", 0)]
        run.fault("lost-record", len(st) - len(keep))
        out = []
        for x in keep:
            out.append(x)
            if rs.uniform() < c.get("dup", 0):
                out.append(x)
                run.fault("duplicated-record")
        for i in range(len(out) - 1):
            if rs.uniform() < c.get("reorder", 0):
                j = rs.randint(i, len(out))
                out[i], out[j] = out[j], out[i]
                run.fault("reordered-record", int(i != j))
        for k in ("skew", "drift"):
            run.fault("clock-" + k, 1 if c.get(k) else 0)
        run.fault("clock-jump", len(c.get("jumps", [])))
        run.fault("stalled-sensor", len(c.get("stalls", [])))
        return out

    def execute(self, plan, run):
        from gradslam.datasets import TUM

        n = plan["n"]
        rgb = self.lines(plan, "rgb", n, run)
        dep = self.lines(plan, "depth", int(n * 0.033 / plan["period"]["depth"]) + 1, run)
        pos = self.lines(plan, "pose", int(n * 0.033 / plan["period"]["pose"]) + 1, run)
        bad = {}
        for u, how in plan["badposes"]:
            if pos:
                bad[pos[pick(u, len(pos))]] = how
        run.fault("invalid-pose", len(bad))
        run.sim_ms += n * 33.0
        good_pos = []
        for p in pos:
            if p not in bad and p not in good_pos:
                good_pos.append(p)
        with world.Scratch() as base:
            d = os.path.join(base, world.tum_name(0))
            for sub in ("rgb", "depth"):
                os.makedirs(os.path.join(d, sub))
                a = np.zeros((2, 2, 3), np.uint8) if sub == "rgb" else np.zeros((2, 2), np.uint16)
                world.write_png(os.path.join(d, sub, "x.png"), a)
            sep, eol = plan.get("sep", " "), plan.get("eol", "\n")
            text = lambda rows: "# h" + eol + "".join(r.replace(" ", sep) + eol for r in rows)
            world.put(os.path.join(d, "rgb.txt"), text("%s rgb/x.png" % s for s in rgb))
            world.put(os.path.join(d, "depth.txt"), text("%s depth/x.png" % s for s in dep))
            body = {"nan": "nan nan nan nan nan nan nan", "null": "0.1 0.2 0.3 0 0 0 0"}
            good = "0.1 0.2 0.3 0 0 0 1"
            for k in range(7):
                one = good.split()
                one[k] = "nan"
                body["nan%d" % k] = " ".join(one)
            world.put(os.path.join(d, "groundtruth.txt"), text("%s %s" % (s, body[bad[s]] if s in bad else good) for s in pos))
            world.put(os.path.join(d, "accelerometer.txt"), "")
            with faults.Storage(base, plan["perm"]), contextlib.redirect_stderr(io.StringIO()):
                got = {}
                for posed in (False, True):
                    ds = TUM(base, None, 1, 0, 1, plan["start"], plan["end"], 2, 2, return_depth=False, return_pose=posed, return_transform=False)
                    got[posed] = [parse_stamps(ds[i][-1], posed)[0] for i in range(len(ds))]
        used = list(dict.fromkeys(rgb[(plan["start"] or 0):plan["end"]]))
        dep = list(dict.fromkeys(dep))
        run.shape(len(rgb), len(dep), len(pos), plan["clocks"], len(got[False]), len(got[True]))
        run.event("matches", got[False], got[True])
        pairs = [(r, d) for r, d, _ in got[False]]
        self.judge(run, pairs, used, dep, "rgb and depth")
        self.order(run, got[False], "without poses")
        trip = got[True]
        self.order(run, trip, "with poses")
        for r, d, p in trip:
            run.check((r, d) in pairs, "pose-changes-frames", "frame %s/%s is only returned when poses are requested" % (r, d))
        self.judge(run, [(d, p) for r, d, p in trip], [d for r, d in pairs], good_pos, "depth and pose")
        if pairs:
            run.probe("some-matched")
        if len(pairs) < len(used):
            run.probe("some-unmatched")
        for b in bad:
            if any(abs(float(b) - float(d)) < 0.02 for r, d in pairs):
                run.probe("invalid-pose-near-frame")
        run.state(len(pairs), len(trip), len(used))

    def order(self, run, rows, what):
        for col in (0, 1):
            t = [float(x[col]) for x in rows]
            if all(a <= b for a, b in zip(t, t[1:])):
                run.stats["checks"] += 1
                return
        raise Violation("not-chronological", "%s: frames come in the order %s" % (what, [x[:2] for x in rows][:20]))

    def judge(self, run, pairs, first, second, what, tol=0.02):
        eps = 1e-6
        for side, name in ((0, "first"), (1, "second")):
            seen = [p[side] for p in pairs]
            run.check(len(set(seen)) == len(seen), "used-twice", lambda: "%s: a %s stamp is used twice in %s" % (what, name, pairs))
        da, db = {}, {}
        for a, b in pairs:
            diff = abs(float(a) - float(b))
            run.check(a in first and b in second, "unknown-stamp", "%s: %s-%s pairs stamps that are not eligible" % (what, a, b))
            run.check(diff < tol + eps, "too-far-apart", "%s: %s is paired with %s" % (what, a, b))
            da[a] = db[b] = diff
        for a in first:
            near = 0
            for b in second:
                diff = abs(float(a) - float(b))
                if diff >= tol - eps:
                    continue
                near += 1
                ok = (a in da and da[a] <= diff + eps) or (b in db and db[b] <= diff + eps)
                run.check(ok, "better-match-ignored", lambda: "%s: %s and %s are %.6f s apart, closer than what either got (%s, %s)" % (
                    what, a, b, diff, da.get(a), db.get(b)))
            if near > 1:
                run.probe("competing-candidates")


# ------------------------------------------------------------------ D02


class Workers(Property):
    """D02: whichever worker fetches a sample, whenever and after whatever, it is the recorded data."""

    id = "D02"
    quick_runs = 4000
    thorough_runs = 400000
    list_fields = ("ops", "threads.0", "threads.1", "threads.2")
    real = REAL
    stubs = ["worker processes (simulated: each holds a pickled copy of the dataset)", "worker thread scheduling", "open3d"]
    rule = ("one run = a TUM, ICL or ScanNet recording with random pixels, then 3-16 events on 1-3 loader workers (fetch in any order, batch, "
            "full iteration, the consumer overwriting the tensors it received, a worker crash before a random gradslam line, restart by "
            "pickle or reconstruction) and 2-3 threads fetching from one dataset under a seeded schedule; every sample is compared with the "
            "recording; non-trivial = a crash, restart, overwrite or preemption happened; distinct by options, events and schedule")
    assumptions = ["torch's DataLoader processes are represented by pickled copies; its own code is not under test",
                   "bilinear interpolation is not re-implemented: a colour of a resized frame is held between the least and the greatest of the pixels around it"]
    expected_probes = ("preempted-inside-gradslam", "consumer-overwrote-sample", "crashed-inside-fetch", "kind-tum", "kind-icl", "kind-scannet",
                       "poses-after-start", "unequal-sequences", "lost-records", "chosen-sequences")

    def generate(self, rng, tier):
        if rng.index % 400 == 5:
            return {"spec": world.long_spec(rng), "ops": [{"k": "fetch", "w": 0, "i": u} for u in (0.0, 0.4, round(rng.random(), 4), 0.9999)],
                    "threads": {}, "sched": sched.draw(rng), "perm": rng.randrange(1 << 30)}
        spec = world.draw_spec(rng, maxseq=3, maxlen=6 if tier == "quick" else 14)
        ops = []
        for _ in range(rng.randint(3, 16)):
            r = rng.random()
            w = rng.randrange(3)
            u = round(rng.random(), 4)
            if r < 0.45:
                ops.append({"k": "fetch", "w": w, "i": u})
            elif r < 0.6:
                ops.append({"k": "overwrite", "w": w, "v": rng.choice(["zero", "nan", "scale"])})
            elif r < 0.72:
                ops.append({"k": "crash", "w": w, "i": u, "at": round(rng.random(), 4), "how": rng.choice(["pickle", "rebuild", "keep"])})
            elif r < 0.8:
                ops.append({"k": "restart", "w": w, "how": rng.choice(["pickle", "rebuild", "deepcopy"])})
            elif r < 0.92:
                ops.append({"k": "batch", "w": w, "i": [round(rng.random(), 4) for _ in range(rng.randint(1, 3))]})
            else:
                ops.append({"k": "iterate", "w": w})
        threads = {}
        if rng.random() < 0.6:
            for t in range(rng.choice([2, 2, 3])):
                threads[str(t)] = [round(rng.random(), 4) for _ in range(rng.choice([1, 1, 2]))]
        return {"spec": spec, "ops": ops, "threads": threads, "sched": sched.draw(rng), "perm": rng.randrange(1 << 30)}

    def execute(self, plan, run):
        spec = plan["spec"]
        with World(spec, plan["perm"]) as w:
            wins = world.windows(w.recs, spec)
            if spec["opt"].get("start") and spec["kind"] != "scannet":
                run.probe("poses-after-start")
            if len(set(spec["seqs"])) > 1:
                run.probe("unequal-sequences")
            run.probe("kind-" + spec["kind"])
            if spec.get("drop"):
                run.probe("lost-records")
            if "pick" in spec:
                run.probe("chosen-sequences")
            run.shape(spec["kind"], spec["opt"], spec["seqs"], spec.get("drop"), spec.get("pick"), plan["ops"], plan["threads"])
            fresh = w.open()
            n = len(fresh)
            run.check(n == len(wins), "wrong-length", "%s: %d samples, the recording has %d" % (describe_spec(spec), n, len(wins)))
            workers = {i: w.open() for i in range(3)}
            last = {}
            keys = {}

            def fetch(ds, i, where):
                s = ds[i]
                k = check_sample(run, spec, wins, s, where)
                run.check(keys.setdefault(i, k) == k, "index-moved", "%s: index %d was %s, is now %s" % (where, i, keys[i], k))
                return s

            def restart(x, how):
                if how == "rebuild":
                    workers[x] = w.open()
                elif how == "pickle":
                    workers[x] = pickle.loads(pickle.dumps(workers[x]))
                elif how == "deepcopy":
                    workers[x] = copy.deepcopy(workers[x])

            for num, op in enumerate(plan["ops"]):
                where = "event %d %s" % (num, op)
                x = op["w"]
                if op["k"] == "overwrite":
                    if x in last:
                        for t in last[x]:
                            if torch.is_tensor(t):
                                t.copy_(t * 3 + 1) if op["v"] == "scale" else t.fill_(0 if op["v"] == "zero" else float("nan"))
                        run.probe("consumer-overwrote-sample")
                        run.fault("consumer-overwrite")
                    continue
                if op["k"] == "restart":
                    restart(x, op["how"])
                    run.fault("worker-restart")
                    continue
                if not n:
                    continue
                if op["k"] == "fetch":
                    last[x] = fetch(workers[x], pick(op["i"], n), where)
                elif op["k"] == "crash":
                    i = pick(op["i"], n)
                    with faults.CrashAt(None) as c:
                        copy.deepcopy(workers[x])[i]
                    try:
                        with faults.CrashAt(pick(op["at"], max(1, c.n))):
                            workers[x][i]
                    except SimCrash:
                        run.fault("worker-crash")
                        run.probe("crashed-inside-fetch")
                    restart(x, op["how"])
                    fetch(workers[x], i, where + " after the crash")
                elif op["k"] == "batch":
                    from torch.utils.data import default_collate

                    items = [fetch(workers[x], pick(u, n), where) for u in op["i"]]
                    try:
                        b = default_collate(items)
                    except RuntimeError:
                        if spec["kind"] == "scannet" and len(set(len(v) for v in wins.values())) > 1:
                            continue  # sequences of different lengths cannot be stacked
                        raise
                    del b
                else:
                    c = 0
                    for i, s in enumerate(workers[x]):
                        check_sample(run, spec, wins, s, where)
                        c += 1
                    run.check(c == n, "wrong-length", "%s: iteration gave %d of %d samples" % (where, c, n))
            threads = plan["threads"]
            if n and threads:
                names = sorted(threads)
                shared = w.open()

                def body(t):
                    def go():
                        return [(pick(u, n), shared[pick(u, n)]) for u in threads[t]]

                    return go

                res = sched.Scheduler(plan["sched"], run).go([body(t) for t in names])
                for t, (status, val) in zip(names, res):
                    if status == "error":
                        raise val
                    for i, s in val:
                        k = check_sample(run, spec, wins, s, "thread %s" % t)
                        run.check(keys.setdefault(i, k) == k, "index-moved", "index %d is %s in a thread" % (i, k))
            seen = [check_sample(run, spec, wins, workers[0][i], "final pass, index %d" % i) for i in range(n)]
            run.check(sorted(seen) == sorted(wins), "missing-or-repeated-sample", lambda: "samples %s, expected %s" % (sorted(seen), sorted(wins)))
            for i, k in keys.items():
                run.check(seen[i] == k, "index-moved", "index %d was %s, is now %s" % (i, k, seen[i]))
            run.event("samples", seen)
            run.state(spec["kind"], spec["opt"].get("seqlen"), n)

    def shrinks(self, plan):
        s = plan["spec"]
        for i in range(len(s["seqs"])):
            if len(s["seqs"]) > 1 and "pick" not in s and not s.get("drop"):
                c = copy.deepcopy(plan)
                del c["spec"]["seqs"][i]
                yield c
        for i, v in enumerate(s["seqs"]):
            if v > 1 and s["kind"] != "scannet":
                c = copy.deepcopy(plan)
                c["spec"]["seqs"][i] = v - 1
                yield c
        for k in ("pick", "drop"):
            if k in s:
                c = copy.deepcopy(plan)
                del c["spec"][k]
                yield c
        for k in ("channels_first", "normalize_color"):
            if s["opt"].get(k):
                c = copy.deepcopy(plan)
                c["spec"]["opt"][k] = False
                yield c


# ------------------------------------------------------------------ D03


class DiskFaults(Property):
    """D03: a read that fails fails loudly, and nothing it did is visible afterwards."""

    id = "D03"
    level = "fault_enumeration"
    quick_runs = 6000
    thorough_runs = 600000
    list_fields = ("ops",)
    real = REAL
    stubs = ["the disk below the recording (LD_PRELOAD seam on open/read/opendir)"]
    KIND = ["EIO", "EIO", "EMFILE", "ENOENT", "EACCES", "ENOMEM", "EINTR", "short"]
    rule = ("one run = a recording and 2-10 loader actions (open the dataset, fetch a sample), most with one or two disk errors at chosen "
            "open/read operations (EIO, EMFILE, ENOENT, EACCES, ENOMEM, EINTR, short reads); an action must raise or return correct data, and "
            "after the fault every sample must be right on the same object; non-trivial = an injected error was delivered; distinct by "
            "recording kind, action, operation number and error")
    assumptions = ["failing stat calls and, for ScanNet, a failing directory listing are not injected (the standard library hides both)",
                   "a premature end of file is not an error a reader can tell from a shorter file; torn files are D04"]
    expected_probes = ("failed-open", "failed-fetch", "fault-absorbed", "kind-tum", "kind-icl", "kind-scannet")

    def generate(self, rng, tier):
        spec = world.draw_spec(rng, maxseq=2, maxlen=4 if tier == "quick" else 8)
        if "pick" in spec:
            spec["pick"]["how"] = "tuple"
        ops = []
        for _ in range(rng.randint(2, 10)):
            f = [[round(rng.random(), 4), rng.choice(self.KIND), rng.choice([1, 3, 17, 100])] for _ in range(rng.choice([1, 1, 1, 2]))]
            ops.append({"k": rng.choice(["open", "fetch", "fetch", "fetch"]), "i": round(rng.random(), 4), "faults": f})
        return {"spec": spec, "ops": ops, "perm": rng.randrange(1 << 30)}

    def execute(self, plan, run):
        spec = plan["spec"]
        with World(spec, plan["perm"]) as w:
            wins = world.windows(w.recs, spec)
            run.probe("kind-" + spec["kind"])
            ds = w.open()
            n = len(ds)
            run.check(n == len(wins), "wrong-length", "%s: %d samples, the recording has %d" % (describe_spec(spec), n, len(wins)))
            for num, op in enumerate(plan["ops"]):
                where = "action %d %s" % (num, op)
                if op["k"] == "fetch" and not n:
                    continue
                i = pick(op["i"], n) if n else 0
                act = w.open if op["k"] == "open" else (lambda: ds[i])
                # rehearsal: how many disk operations does this action make?
                w.disk.arm([])
                act()
                dirs = w.disk.l.dst_fs_dirs()
                total, _ = w.disk.quiet()
                low = dirs if spec["kind"] == "scannet" and op["k"] == "open" else 0
                if total <= low:
                    continue
                at = [[low + pick(u, total - low), k, a] for u, k, a in op["faults"]]
                w.disk.arm(at)
                err, out = None, None
                try:
                    out = act()
                except Exception as e:
                    err = e
                _, fired = w.disk.quiet()
                for k, c in fired.items():
                    run.fault("disk-" + k, c)
                run.shape(spec["kind"], op["k"], at)
                run.event(num, op["k"], type(err).__name__ if err else "ok", sorted(fired))
                if err is not None:
                    run.check(fired, "failed-without-fault", lambda: "%s raised %r though no error was delivered" % (where, err))
                    run.probe("failed-" + op["k"])
                else:
                    if fired:
                        run.probe("fault-absorbed")
                    if op["k"] == "open":
                        run.check(len(out) == len(wins), "silently-incomplete", "%s: %d samples of %d after %s" % (where, len(out), len(wins), sorted(fired)))
                        ds = out
                    else:
                        check_sample(run, spec, wins, out, where + " under " + str(sorted(fired)), "wrong-sample-after-fault")
                if op["k"] == "open" and err is not None:
                    ds = w.open()
                for j in ([i] if op["k"] == "fetch" else range(n)):
                    check_sample(run, spec, wins, ds[j], "%s, then fetching %d again" % (where, j), "wrong-sample-after-fault")
            keys = sorted(check_sample(run, spec, wins, ds[j], "final pass, index %d" % j, "wrong-sample-after-fault") for j in range(n))
            run.check(keys == sorted(wins), "missing-or-repeated-sample", lambda: "samples %s, expected %s" % (keys, sorted(wins)))
            run.state(spec["kind"], n)


# ------------------------------------------------------------------ D04


def durable_text(path):
    with open(path, "rb") as f:
        return f.read().decode("latin-1")


class TornRecordings(Property):
    """D04: a recording cut short by a crash is refused or read truthfully."""

    id = "D04"
    level = "fault_enumeration"
    quick_runs = 25000
    thorough_runs = 2500000
    list_fields = ("cuts",)
    real = REAL
    stubs = ["the recorder and its crash (simulated: only a prefix of each file is durable)"]
    rule = ("one run = a recording whose writer crashed: images and lines after a seeded point are lost, and up to 6 further files are torn at a "
            "seeded byte, emptied, zero-filled at the end (text files) or lost; the loader must raise, or return frames that are exactly what "
            "was recorded under the names, stamps and order it reports; distinct by kind, options and damage")
    assumptions = ["a number cut inside its last token is read as the shorter number (the file holds nothing else)",
                   "images are torn by truncation only; how the PNG decoder treats overwritten bytes is not under test"]
    expected_probes = ("refused-open", "refused-fetch", "returned-frames", "kind-tum", "kind-icl", "kind-scannet")

    def generate(self, rng, tier):
        spec = world.draw_spec(rng, maxseq=2, maxlen=5 if tier == "quick" else 9)
        if spec["kind"] != "scannet":
            spec["opt"]["seqlen"] = rng.choice([1, 1, 2, 2, 3])
            spec["opt"]["dilation"] = rng.choice([None, 1])
            spec["opt"]["stride"] = rng.choice([1, 1, None])
            spec["opt"]["start"] = rng.choice([None, None, 1])
            spec["opt"]["end"] = None
        cuts = [[rng.choice(["text", "text", "pose", "image"]), round(rng.random(), 4), rng.choice(["torn", "torn", "torn", "tail", "tail", "lines", "lines", "empty", "lost", "zero"]),
                 round(rng.random(), 5)] for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
        return {"spec": spec, "crash": rng.choice([None, None, round(rng.random(), 4)]), "cuts": cuts, "perm": rng.randrange(1 << 30)}

    def damage(self, plan, base, run):
        files = []
        for d, _, fs in sorted(os.walk(base)):
            files += [os.path.join(d, f) for f in sorted(fs)]
        text = [f for f in files if not f.endswith(".png")]
        image = [f for f in files if f.endswith(".png")]
        if plan["crash"] is not None and image:
            # what had reached the disk when the recorder died
            k = int(plan["crash"] * len(image))
            for f in image[k + 1:]:
                os.unlink(f)
            if k < len(image):
                with open(image[k], "r+b") as g:
                    g.truncate(int(os.path.getsize(image[k]) * ((plan["crash"] * 7919) % 1)))
            run.fault("recorder-crash")
        for which, u, how, v in plan["cuts"]:
            pool = {"text": text, "image": image, "pose": [f for f in text if f.endswith(".sim") or "groundtruth" in f or "/pose/" in f]}[which]
            pool = [f for f in pool if os.path.exists(f)]
            if not pool:
                continue
            f = pool[pick(u, len(pool))]
            size = os.path.getsize(f)
            run.fault("%s-file-%s" % (which, how))
            if how == "lost":
                os.unlink(f)
                continue
            keep = 0 if how == "empty" else int(size * v)
            if how == "tail":
                keep = max(0, size - 1 - int(v * 60))
            if how == "lines":
                with open(f, "rb") as g:
                    rows = g.read().splitlines(True)
                keep = sum(len(r) for r in rows[:max(0, len(rows) - 1 - int(v * 6))])
            with open(f, "r+b") as g:
                g.truncate(keep)
                if how == "zero" and which != "image":
                    g.seek(keep)
                    g.write(b"\0" * (size - keep))

    def execute(self, plan, run):
        spec = plan["spec"]
        run.probe("kind-" + spec["kind"])
        run.shape(spec["kind"], spec["opt"], spec["seqs"], plan["crash"], plan["cuts"])
        with World(spec, plan["perm"]) as w:
            self.damage(plan, w.path, run)
            try:
                ds = w.open()
                n = len(ds)
            except Exception as e:
                run.probe("refused-open")
                run.event("refused", type(e).__name__)
                return
            for i in range(n):
                run.sim_ms += 33.0
                try:
                    s = ds[i]
                except Exception as e:
                    run.probe("refused-fetch")
                    run.event(i, "refused", type(e).__name__)
                    continue
                run.probe("returned-frames")
                win = self.judge(run, spec, w, s, "index %d" % i)
                run.event(i, [r["stem"] for r in win])
            run.state(spec["kind"], n)

    def judge(self, run, spec, w, sample, where):
        kind = "wrong-data-from-torn-recording"
        got = world.split_sample(spec, sample)
        if got is None:
            raise Violation(kind, "%s: %d fields" % (where, len(sample)))
        L = got["color"].shape[0]
        if spec["kind"] == "scannet":
            name = got["name"]
            run.check(name in w.recs, kind, "%s: unknown sequence %r" % (where, name))
            lines = [x for x in durable_text(os.path.join(w.path, "meta", name + ".txt")).split("\n") if x.strip()]
            end = len(lines) if spec["opt"]["end"] == -1 else spec["opt"]["end"]
            stems = [os.path.basename(x.split()[1])[:-4] for x in lines[spec["opt"]["start"]:end]]
            by = {r["stem"]: r for r in w.recs[name]}
            names = [name] * len(stems)
        else:
            parts = [x.rsplit("/", 1) for x in world.normal_key(got["name"]).split(", ")]
            names, stems = [p[0] for p in parts], [p[1] for p in parts]
            run.check(len(set(names)) == 1 and names[0] in w.recs, kind, "%s: unknown sequence %r" % (where, names))
            by = {r["stem"]: r for r in w.recs[names[0]]}
        run.check(len(stems) == L and all(s in by for s in stems), kind, "%s: %d frames named %s" % (where, L, stems))
        win = [dict(by[s]) for s in stems]
        order = [list(by).index(s) for s in stems]
        run.check(all(a < b for a, b in zip(order, order[1:])), kind, "%s: frames out of order: %s" % (where, stems))
        poses, dframes = [], []
        posed = spec["opt"]["return_pose"] or spec["opt"]["return_transform"]
        if posed and L == 1 and not spec["opt"]["return_pose"]:
            # one frame: its transform is the identity whatever the pose file holds
            fail_unless_equal(kind, where, "transform", to_np(got["transform"]), np.eye(4)[None], 1e-6)
            del got["transform"]
        used = "pose" in got or "transform" in got
        if spec["kind"] == "tum":
            st = parse_stamps(got["stamps"], posed)
            run.check(len(st) == L, kind, "%s: %d stamps for %d frames" % (where, len(st), L))
            bydepth = {r["dstem"]: r["frame"] for r in w.recs[names[0]]}
            for (r, d, p), s in zip(st, stems):
                run.check(r == s and d in bydepth and abs(float(r) - float(d)) < 0.02 + 1e-6, kind, "%s: frame %s is reported as %s" % (where, s, (r, d, p)))
                dframes.append(bydepth[d])
            if used:
                table = {}
                for x in durable_text(os.path.join(w.path, names[0], "groundtruth.txt")).split("\n"):
                    t = x.split()
                    if len(t) == 8 and t[0][0] != "#":
                        table[t[0]] = t[1:]
                for r, d, p in st:
                    run.check(p in table and abs(float(d) - float(p)) < 0.02 + 1e-6, kind, "%s: pose %s is not recorded" % (where, p))
                    T = np.eye(4)
                    v = [float(x) for x in table[p]]
                    T[:3, 3], T[:3, :3] = v[:3], world.rot_of(v[3:])
                    poses.append(T)
        else:
            dframes = [r["frame"] for r in win]
            if used and spec["kind"] == "icl":
                lines = durable_text(os.path.join(w.path, names[0], "livingRoom%sn.gt.sim" % names[0][16:].split("_")[0])).split("\n")
                for s in stems:
                    rows = [x.split() for x in lines[4 * int(s):4 * int(s) + 3]]
                    run.check(len(rows) == 3 and all(len(x) == 4 for x in rows), kind, "%s: the pose of frame %s is not recorded" % (where, s))
                    poses.append(np.array([[float(v) for v in x] for x in rows] + [[0, 0, 0, 1]]))
            elif used:
                for s in stems:
                    t = [x.split() for x in durable_text(os.path.join(w.path, "scans", name.split("-")[0], "pose", s + ".txt")).split("\n") if x.strip()]
                    run.check(len(t) == 4 and all(len(x) == 4 for x in t), kind, "%s: the pose of frame %s is not recorded in full" % (where, s))
                    poses.append(np.array([[float(v) for v in x] for x in t]))
        want = world.expected(spec, win)
        checks = ["color"] + (["label"] if spec["kind"] == "scannet" else [])
        for f in checks:
            if f in got:
                fail_unless_equal(kind, where, f, to_np(got[f]), *want[f])
        if "depth" in got:
            d2 = [dict(r) for r in win]
            for r, fr in zip(d2, dframes):
                r["frame"] = fr
            fail_unless_equal(kind, where, "depth", to_np(got["depth"]), *world.expected(spec, d2)["depth"])
        if used:
            big = max(1.0, max(float(np.abs(p).max()) for p in poses))
            try:
                inv = [np.linalg.inv(p) for p in poses]
            except np.linalg.LinAlgError:
                return win
            cond = max(np.linalg.cond(p[:3, :3]) for p in poses)
            if cond < 50:
                tol = 1e-3 * big * cond
                if "pose" in got:
                    fail_unless_equal(kind, where, "pose", to_np(got["pose"]), np.stack([inv[0] @ p for p in poses]), tol)
                if "transform" in got:
                    fail_unless_equal(kind, where, "transform", to_np(got["transform"]),
                                      np.stack([np.eye(4)] + [inv[i] @ poses[i + 1] for i in range(L - 1)]), tol)
        return win


# ------------------------------------------------------------------ D05


class Enumeration(Property):
    """D05: which sample an index names does not depend on the order the file system lists names in."""

    id = "D05"
    quick_runs = 5000
    thorough_runs = 500000
    list_fields = ("perms",)
    real = REAL[:3] + ["directory listing through the C library"]
    stubs = ["directory order of the file system (seeded permutation in the storage seam)"]
    rule = ("one run = a recording of 2-6 sequences, opened under 2-4 seeded directory orders (as worker restarts or different machines "
            "would), and every index compared across them; non-trivial = the order of a listing was permuted; distinct by layout and permutations")
    assumptions = []
    expected_probes = ("kind-tum", "kind-icl", "kind-scannet", "several-samples")

    def generate(self, rng, tier):
        spec = world.draw_spec(rng, maxseq=1, maxlen=1)
        spec.pop("pick", None)
        spec.pop("drop", None)
        spec["seqs"] = [rng.randint(1, 3) for _ in range(rng.randint(2, 6 if tier == "quick" else 10))]
        if spec["kind"] == "scannet":
            spec["opt"].update(start=0, end=-1)
        else:
            spec["opt"].update(seqlen=1, dilation=None, stride=None, start=None, end=None)
        spec["h"], spec["w"], spec["flat"] = 2, 2, False
        spec["opt"].update(height=2, width=2)
        return {"spec": spec, "perms": [rng.randrange(1 << 30) for _ in range(rng.randint(2, 4))]}

    def execute(self, plan, run):
        spec = plan["spec"]
        if not plan["perms"]:
            return
        run.probe("kind-" + spec["kind"])
        run.shape(spec["kind"], spec["seqs"], plan["perms"])
        with World(spec, plan["perms"][0]) as w:
            wins = world.windows(w.recs, spec)
            ref = None
            for p in plan["perms"]:
                w.disk.permute(p)
                ds = w.open()
                run.fault("directory-reordered", 1 if w.disk.l.dst_fs_permuted() else 0)
                keys = [check_sample(run, spec, wins, ds[i], "index %d" % i) for i in range(len(ds))]
                if len(keys) > 1:
                    run.probe("several-samples")
                run.event(keys)
                if ref is None:
                    ref = keys
                run.check(keys == ref, "order-depends-on-directory", lambda: "indices name %s under one directory order and %s under another" % (ref, keys))
                run.state(spec["kind"], len(keys))


PROPERTIES = [Association(), Workers(), DiskFaults(), TornRecordings(), Enumeration()]
