"""D06: the sensor streams of a TUM recording, read and paired one by one, with the offset between two clocks taken out."""
import contextlib
import io
import os

import numpy as np

from .. import faults, world
from ..core import Violation
from ..tools import close, diff_text, npr, rotation
from .datasets import Association, DiskFaults, pick


class Streams(Association):
    id = "D06"
    level = "fault_enumeration"
    quick_runs = 20000
    thorough_runs = 2000000
    list_fields = Association.list_fields + ("ops",)
    real = ["gradslam.datasets.tumutils"]
    stubs = ["sensor clocks and recorder (simulated)", "the disk below the recording (LD_PRELOAD seam on open/read)"]
    rule = ("one run = two stamped streams and a trajectory written by the simulated sensors of D01 (trajectory with real motions, some invalid), then 2-8 actions: "
            "reading a stream (any selection), the trajectory (as matrices or as recorded), or pairing two of them with an offset and a limit, some under "
            "disk errors; a read raises or returns what was recorded, a pairing obeys the association rules under the stated offset; distinct by faults and actions")
    assumptions = Association.assumptions
    expected_probes = ("failed-read", "fault-absorbed", "offset-needed", "matrix", "quaternion", "selection", "some-matched")

    def generate(self, rng, tier):
        p = Association.generate(self, rng, tier)
        ops = []
        for _ in range(rng.randint(2, 8)):
            o = {"k": rng.choice(["stream", "trajectory", "trajectory", "pair", "pair"]), "s": rng.choice(["rgb", "depth"]), "matrix": rng.random() < 0.6,
                 "start": rng.choice([None, None, 0, 1, 3]), "end": rng.choice([None, None, 1, 4, 9, 500]),
                 "offset": rng.choice([0.0, 0.0, 0.25, -0.25, 0.0165, -1.5, 0.003, 20.0]), "limit": rng.choice([0.02, 0.02, 0.005, 0.1, 1.0]),
                 "other": rng.choice(["rgb", "depth", "pose"])}
            if o["k"] != "pair" and rng.random() < 0.4:
                o["faults"] = [[round(rng.random(), 4), rng.choice(DiskFaults.KIND), rng.choice([1, 3, 17, 100])] for _ in range(rng.choice([1, 1, 2]))]
            ops.append(o)
        p["ops"] = ops
        p["unnormalised"] = rng.random() < 0.3
        # the second stream's clock is set wrong by about what the caller will take out again
        p["shift"] = rng.choice([0.0, 0.25, -0.25, -1.5, 20.0])
        return p

    def execute(self, plan, run):
        from gradslam.datasets import tumutils

        n = plan["n"]
        at = {s: self.lines(plan, s, int(n * 0.033 / plan["period"][s]) + 1, run) for s in ("rgb", "depth", "pose")}
        sh = plan["shift"]
        at["depth"] = ["%.6f" % (float(x) + sh) for x in at["depth"]]
        at = {s: [x for x in v if float(x) >= 0] for s, v in at.items()}
        run.sim_ms += n * 33.0
        body, pose = {}, {}
        rs = npr("trajectory", plan["seed"])
        for s in at["pose"]:
            if s not in body:
                q = np.round(world.quat_of(rotation(rs)) * (rs.uniform(0.3, 3) if plan["unnormalised"] else 1), 5)
                t = np.round(rs.uniform(-3, 3, size=3), 4)
                pose[s] = np.concatenate([t, q])
                body[s] = " ".join(["%.4f" % v for v in t] + ["%.5f" % v for v in q])
        bad = {}
        for u, how in plan["badposes"]:
            if at["pose"]:
                s = at["pose"][pick(u, len(at["pose"]))]
                one = body[s].split(" ")
                if how == "nan":
                    one = ["nan"] * 7
                elif how == "null":
                    one[3:] = ["0"] * 4
                else:
                    one[int(how[3:])] = "nan"
                bad[s] = body[s] = " ".join(one)
        run.fault("invalid-pose", len(bad))
        sep, eol = plan.get("sep", " "), plan.get("eol", "\n")
        text = lambda rows: "# h" + eol + "".join(r.replace(" ", sep) + eol for r in rows)
        rows = {s: [(x, "%s/%s-%d.png" % (s, x, plan["seed"] % 7)) for x in at[s]] for s in ("rgb", "depth")}
        run.shape(plan["clocks"], [len(v) for v in at.values()], [(o["k"], o["offset"], o["limit"], len(o.get("faults", []))) for o in plan["ops"]])
        with world.Scratch() as base, contextlib.redirect_stderr(io.StringIO()):
            path = {s: os.path.join(base, s + ".txt") for s in at}
            for s in rows:
                world.put(path[s], text("%s %s" % r for r in rows[s]))
            world.put(path["pose"], text("%s %s" % (s, body[s]) for s in at["pose"]))
            with faults.Storage(base, plan["perm"]) as disk:
                for i, o in enumerate(plan["ops"]):
                    self.one(run, tumutils, disk, path, rows, at, pose, bad, o, "action %d %s" % (i, o))

    def stream(self, tu, path, rows, o):
        s = o["s"]
        sel = rows[s][(o["start"] or 0):o["end"]]
        return (lambda: tu.read_file_list(path[s], o["start"], o["end"])), {a: [b] for a, b in sel}

    def trajectory(self, tu, path, pose, bad, o):
        want = {s: p for s, p in pose.items() if s not in bad}
        return (lambda: tu.read_trajectory(path["pose"], matrix=o["matrix"])), want

    def one(self, run, tu, disk, path, rows, at, pose, bad, o, where):
        if o["k"] == "pair":
            return self.pair(run, tu, path, rows, at, pose, bad, o, where)
        if o["k"] == "stream":
            call, want = self.stream(tu, path, rows, o)
            if o["start"] or o["end"]:
                run.probe("selection")
        else:
            call, want = self.trajectory(tu, path, pose, bad, o)
            run.probe("matrix" if o["matrix"] else "quaternion")
        for again in ([True, False] if "faults" in o else [False]):
            err, got, fired = None, None, {}
            if again:
                disk.arm([])
                call()
                total, _ = disk.quiet()
                if not total:
                    continue
                disk.arm([[pick(u, total), k, a] for u, k, a in o["faults"]])
            try:
                got = call()
            except Exception as e:
                err = e
            if again:
                _, fired = disk.quiet()
                for k, c in fired.items():
                    run.fault("disk-" + k, c)
            run.event(o["k"], type(err).__name__ if err else "ok", sorted(fired))
            if err is not None:
                run.check(fired and isinstance(err, (OSError, MemoryError)), "failed-without-fault", lambda: "%s raised %r under %s" % (where, err, sorted(fired)))
                run.probe("failed-read")
                continue
            if fired:
                run.probe("fault-absorbed")
            self.same(run, o, got, want, where)

    def same(self, run, o, got, want, where):
        run.check(list(got) == list(want), "wrong-stamps", lambda: "%s: stamps %s, the file has %s" % (where, list(got)[:8], list(want)[:8]))
        for s in want:
            if o["k"] == "stream":
                run.check(got[s] == want[s], "wrong-record", lambda: "%s: %s is %r, recorded %r" % (where, s, got[s], want[s]))
            else:
                w = want[s]
                if o["matrix"]:
                    m = np.eye(4)
                    m[:3, :3], m[:3, 3] = world.rot_of(w[3:]), w[:3]
                    w = m
                run.stats["checks"] += 1
                if not close(np.asarray(got[s], dtype=np.float64), w, 1e-9):
                    raise Violation("wrong-record", "%s: %s" % (where, diff_text("pose at " + s, got[s], w)))

    def pair(self, run, tu, path, rows, at, pose, bad, o, where):
        def side(s):
            if s == "pose":
                return self.trajectory(tu, path, pose, bad, dict(o, k="trajectory"))[0]()
            return tu.read_file_list(path[s])

        a, b = side(o["s"]), side(o["other"])
        before = list(a), list(b)
        got = tu.associate(a, b, o["offset"], o["limit"])
        run.check((list(a), list(b)) == before, "arguments-changed", "%s changed the streams it was given" % where)
        run.event("pair", o["s"], o["other"], len(got))
        if got:
            run.probe("some-matched")
        t = [float(x) for x, _ in got]
        run.check(all(x <= y for x, y in zip(t, t[1:])), "not-chronological", lambda: "%s: pairs come in the order %s" % (where, got[:12]))
        shifted = {y: repr(float(y) + o["offset"]) for y in b}
        if o["offset"] and any(abs(float(x) - float(y)) > o["limit"] for x, y in got):
            run.probe("offset-needed")
        self.judge(run, [(x, shifted[y]) for x, y in got], list(a), list(shifted.values()), where, o["limit"])
        run.state(len(got), len(a), len(b))


PROPERTIES = [Streams()]
