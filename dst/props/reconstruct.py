"""E01: mapping a recording, from the files on the disk to the map, reconstructs the room that was recorded."""
import copy
import pickle

import numpy as np
import torch

from .. import world
from ..core import Property, SimCrash, Violation
from ..faults import CrashAt
from ..tools import close, diff_text, dump_load, to_np
from .datasets import REAL, DiskFaults, World, describe_spec, pick
from .slam import G, cloud, compare, make_slam



class Actor(object):
    """One mapping process: it fetches its samples, makes frames of them and maps these one by one."""

    def __init__(self, cfg, keys):
        self.cfg, self.keys = cfg, keys
        self.saved = None
        self.boot()

    def boot(self):
        """Starts, or starts again: only the last checkpoint survives."""
        self.slam = make_slam(self.cfg)
        self.frames, self.sample = None, None
        self.pc, self.poses, self.at = G()[1].Pointclouds(), [], 0
        if self.saved is not None:
            self.pc, self.poses, self.at = dump_load(self.saved)

    def checkpoint(self):
        self.saved = copy.deepcopy((self.pc, self.poses, self.at))

    def done(self):
        return self.frames is not None and self.at == self.frames.shape[1]

    def fetch(self, ds, names, channels_first):
        loader = torch.utils.data.DataLoader(ds, batch_size=len(self.keys), sampler=list(self.keys), num_workers=0, generator=torch.Generator())
        batch = list(loader)
        if len(batch) != 1:
            raise Violation("wrong-batch", "%d samples came in %d batches" % (len(self.keys), len(batch)))
        s = dict(zip(names, batch[0]))
        self.frames = G()[1].RGBDImages(s["color"], s["depth"], s["intrinsics"], s["pose"], channels_first=channels_first)
        self.sample = s

    def step(self, inplace):
        live = self.frames[:, self.at]
        self.pc, p = self.slam.step(self.pc, live, None, inplace=inplace)
        self.poses.append(to_np(p)[:, 0].astype(np.float64))
        self.at += 1


class Reconstruction(Property):
    id = "E01"
    quick_runs = 3000
    thorough_runs = 300000
    list_fields = ("events",)
    real = REAL + ["torch's DataLoader and collation (in process)", "gradslam.structures", "gradslam.slam.ICPSLAM and PointFusion", "gradslam.odometry.GroundTruthOdometryProvider"]
    stubs = ["camera and room (ray-cast by the simulator)", "recorder", "mapping processes (simulated, interleaved in one process)", "the disk (LD_PRELOAD seam)", "open3d"]
    rule = ("one run = a simulated room recorded as a TUM, ICL or ScanNet dataset by a moving camera with sensor faults, then 1-3 mapping processes that load "
            "batches of windows (any stride, dilation, layout, colour range, size) and map them frame by frame, interleaved by a seeded scheduler, with disk "
            "errors while loading, crashes anywhere in a mapping step, checkpoints, restarts from the last one, datasets reopened or copied; every map must lie on "
            "the room's walls as seen from the window's first frame, hold exactly the recorded pixels (aggregation) or be that of an undisturbed session "
            "(fusion); distinct by recording, options and schedule")
    assumptions = ["poses are those of the recording (tracking is judged by S06-S09)", "where frames are resized, points are judged against the recorded pixels, not against the walls; resized colours only have to lie between those of the pixels around"]
    expected_probes = ("kind-tum", "kind-icl", "kind-scannet", "aggregated", "fused", "several-actors", "crash-in-step", "resumed-from-checkpoint", "restarted-from-scratch",
                       "failed-fetch", "reopened", "batch", "resized", "channels-first", "normalised", "on-the-walls")

    def generate(self, rng, tier):
        spec = world.draw_spec(rng, maxseq=2, maxlen=5 if tier == "quick" else 9)
        h, w = rng.choice([(5, 6), (6, 8), (8, 8), (8, 10)])
        spec.update(room=True, flat=False, h=h, w=w, move=rng.choice([0.0, 0.02, 0.05]))
        spec.pop("pick", None)
        opt = spec["opt"]
        for k in ("return_depth", "return_intrinsics", "return_pose", "return_transform"):
            opt[k] = True
        if spec["kind"] != "scannet":
            # most recordings are long enough for a window
            opt["seqlen"], opt["start"], opt["end"] = rng.choice([1, 2, 2, 3, 4]), rng.choice([None, None, 0, 1]), None if rng.random() < 0.8 else rng.randint(2, 6)
            opt["dilation"] = rng.choice([None, None, 0, 0, 1])
            spec["seqs"] = [max(x, rng.choice([1, 4, 5])) for x in spec["seqs"]]
        opt["height"], opt["width"] = (h, w) if rng.random() < 0.75 else (world.resized(rng, h), world.resized(rng, w))
        spec["sensor"] = [[rng.choice(["ok", "ok", "ok", "dropout", "occluded", "blackout"]) for _ in range(n)] for n in spec["seqs"]]
        na = rng.choice([1, 1, 2, 3])
        actors = []
        for _ in range(na):
            actors.append({"cls": rng.choice(["ICPSLAM", "PointFusion"]), "odom": "gt", "dsratio": 4, "numiters": 1, "dist_th": rng.choice([0.02, 0.05, 0.2]),
                           "angle_th": rng.choice([5, 20, 45]), "sigma": 0.6, "first": round(rng.random(), 4), "size": rng.choice([1, 1, 2, 3]),
                           "inplace": rng.random() < 0.5})
        events = []
        for _ in range(rng.randint(0, 24 if tier == "quick" else 30)):
            r = rng.random()
            e = {"a": rng.randrange(na)}
            if r < 0.62:
                e["k"] = "go"
                if rng.random() < 0.25:
                    e["faults"] = [[round(rng.random(), 4), rng.choice(DiskFaults.KIND), rng.choice([1, 3, 17])]]
                    e["crash"] = round(rng.random(), 6)
            elif r < 0.82:
                e["k"] = "checkpoint"
            elif r < 0.90:
                e["k"] = "crash"
            else:
                e["k"] = "dataset"
                e["how"] = rng.choice(["reopen", "copy"])
            events.append(e)
        return {"spec": spec, "actors": actors, "events": events, "perm": rng.randrange(1 << 30)}

    # -------------------------------------------------------------- one run

    def execute(self, plan, run):
        spec = plan["spec"]
        opt = spec["opt"]
        run.probe("kind-" + spec["kind"])
        resized = (opt["height"], opt["width"]) != (spec["h"], spec["w"])
        with World(spec, plan["perm"]) as w:
            wins = world.windows(w.recs, spec)
            self.ds = w.open()
            n = len(self.ds)
            run.check(n == len(wins), "wrong-length", "%s: %d samples, the recording has %d" % (describe_spec(spec), n, len(wins)))
            if not n:
                return
            names = [f for f in ("color", "depth", "intrinsics", "pose", "transform", "name", "label", "stamps")
                     if f not in ("label", "stamps") or (f == "label" and spec["kind"] == "scannet" and opt.get("return_labels")) or (f == "stamps" and spec["kind"] == "tum")]
            keys = [world.normal_key(dict(zip(names, self.ds[i]))["name"]) for i in range(n)]
            for k in keys:
                run.check(k in wins, "wrong-sample", lambda: "%s: a sample is named %r; the recording has %s" % (describe_spec(spec), k, sorted(wins)[:6]))
            actors = []
            for a in plan["actors"]:
                first = pick(a["first"], n)
                # only windows of one length can share a batch
                mates = [j % n for j in range(first, first + n) if len(wins[keys[j % n]]) == len(wins[keys[first]])][:a["size"]]
                actors.append(Actor(a, mates))
            if len(actors) > 1:
                run.probe("several-actors")
            if opt["channels_first"]:
                run.probe("channels-first")
            if opt["normalize_color"]:
                run.probe("normalised")
            for row in spec["sensor"]:
                for f in row:
                    if f != "ok":
                        run.fault("frame-" + f)
            run.shape(spec["kind"], opt, spec["seqs"], spec["sensor"], [(a.cfg["cls"], a.keys) for a in actors], plan["events"])
            run.sim_ms += 33.0 * sum(spec["seqs"])
            for num, e in enumerate(plan["events"]):
                self.event(run, w, names, actors[e["a"] % len(actors)], e, "event %d %s" % (num, e))
            for i, a in enumerate(actors):
                for _ in range(2 + 10):
                    if a.done():
                        break
                    self.go(run, w, names, a, {}, "finishing")
                run.check(a.done(), "no-progress", "mapping process %d does not finish though nothing fails any more" % i)
                self.judge(run, w, spec, wins, keys, names, a, resized)

    def event(self, run, w, names, a, e, where):
        if e["k"] == "dataset":
            self.ds = w.open() if e["how"] == "reopen" else pickle.loads(pickle.dumps(self.ds))
            run.probe("reopened")
        elif e["k"] == "checkpoint":
            a.checkpoint()
        elif e["k"] == "crash":
            self.crash(run, a)
        else:
            self.go(run, w, names, a, e, where)

    def crash(self, run, a):
        run.fault("process-crash")
        run.probe("resumed-from-checkpoint" if a.saved is not None and a.saved[2] else "restarted-from-scratch")
        a.boot()

    def go(self, run, w, names, a, e, where):
        if a.frames is None:
            fired = {}
            if e.get("faults"):
                w.disk.arm([])
                list(torch.utils.data.DataLoader(self.ds, batch_size=len(a.keys), sampler=list(a.keys), num_workers=0, generator=torch.Generator()))
                total, _ = w.disk.quiet()
                if total:
                    w.disk.arm([[pick(u, total), k, x] for u, k, x in e["faults"]])
            err = None
            try:
                a.fetch(self.ds, names, w.spec["opt"]["channels_first"])
            except (OSError, MemoryError, ValueError, SyntaxError, RuntimeError) as x:
                err = x
            if e.get("faults"):
                _, fired = w.disk.quiet()
                for k, c in fired.items():
                    run.fault("disk-" + k, c)
            if err is not None:
                if not fired:
                    raise err
                run.probe("failed-fetch")
                a.frames = a.sample = None
            run.event("fetch", a.keys, type(err).__name__ if err else "ok")
            return
        if a.done():
            return
        if "crash" in e:
            trial = copy.deepcopy((a.pc, a.frames))
            with CrashAt(None) as c:
                a.slam.step(trial[0], trial[1][:, a.at], None, inplace=a.cfg["inplace"])
            if c.n:
                try:
                    with CrashAt(min(int(e["crash"] * c.n), c.n - 1)):
                        a.step(a.cfg["inplace"])
                except SimCrash:
                    run.probe("crash-in-step")
                    self.crash(run, a)
                run.event("step", a.at)
                return
        a.step(a.cfg["inplace"])
        run.event("step", a.at, [int(x) for x in a.pc.num_points_per_pointcloud] if a.pc.has_points else 0)

    # -------------------------------------------------------------- verdict

    def judge(self, run, w, spec, wins, keys, names, a, resized):
        opt = spec["opt"]
        got = cloud(a.pc, len(a.keys))
        poses = np.stack(a.poses, 1)
        if len(a.keys) > 1:
            run.probe("batch")
        if resized:
            run.probe("resized")
        run.probe("aggregated" if a.cfg["cls"] == "ICPSLAM" else "fused")
        for i, k in enumerate(a.keys):
            win = wins[keys[k]]
            where = "%s, window %s, %s" % (describe_spec(spec), keys[k], a.cfg["cls"])
            want = world.expected(dict(spec, opt=dict(opt, channels_first=False)), win)
            # geometry from the recording itself
            H, W = opt["height"], opt["width"]
            seq = next(s for s in range(len(spec["seqs"])) if any(r is win[0] for r in w.recs[world.seq_name(spec, s)]))
            K = world.camera(spec, seq, W, H)
            P = [r["frame"].pose for r in win]
            rel = np.stack([np.linalg.inv(P[0]) @ p for p in P])
            run.stats["checks"] += 1
            if not close(poses[i], rel, 2e-3):
                raise Violation("wrong-poses", "%s: %s" % (where, diff_text("poses", poses[i], rel)))
            tr = to_np(a.sample["transform"][i]).astype(np.float64)
            chain = [np.eye(4)]
            for t in tr[1:]:
                chain.append(chain[-1] @ t)
            run.check(close(tr[0], np.eye(4), 1e-5) and close(np.stack(chain), rel, 1e-2), "transforms-disagree-with-poses", where)
            pts, cols = [], []
            v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
            for l, r in enumerate(win):
                z = world.nearest(r["frame"].depth, H, W) / world.DEPTH_SCALE[spec["kind"]]
                q = np.stack([(u - K[0, 2]) / K[0, 0] * z, (v - K[1, 2]) / K[1, 1] * z, z], -1)[z > 0]
                pts.append(q @ rel[l, :3, :3].T + rel[l, :3, 3])
                cols.append([x[l][z > 0] for x in want["color"]])
            pts = np.concatenate(pts)
            have = got[i]["points"]
            run.check(np.isfinite(have).all(), "not-finite", where)
            if a.cfg["cls"] == "ICPSLAM":
                run.check(len(have) == len(pts), "points-lost-or-invented", "%s: %d points for %d valid pixels" % (where, len(have), len(pts)))
                if len(pts):
                    tol = 2e-3 * max(1.0, float(np.abs(pts).max()) / 3)
                    run.stats["checks"] += 1
                    if not close(have, pts, tol):
                        raise Violation("point-misplaced", "%s: %s" % (where, diff_text("points", have, pts)))
                    c, ctol = (np.concatenate(x) for x in zip(*cols))
                    if not close(got[i]["colors"], c, ctol + (1e-4 if opt["normalize_color"] else 1e-2)):
                        raise Violation("wrong-colour", "%s: %s" % (where, diff_text("colours", got[i]["colors"], c)))
            else:
                first = int((world.nearest(win[0]["frame"].depth, H, W) > 0).sum())
                run.check(first <= len(have) <= len(pts), "points-lost-or-invented", "%s: %d points for %d valid pixels, %d in the first frame" % (where, len(have), len(pts), first))
            if not resized and len(have):
                # truth: the walls, as seen from the window's first frame
                far, _ = world.room_pose(spec, seq, 0)
                T = np.linalg.inv(far) @ P[0]
                world_pts = have @ T[:3, :3].T + T[:3, 3]
                off = np.min([np.abs(world_pts @ nrm - d) for nrm, d in world.room(spec, seq)], 0)
                tol = (4e-3 if spec["kind"] == "scannet" else 3e-3) + (a.cfg["dist_th"] if a.cfg["cls"] == "PointFusion" else 0)
                run.probe("on-the-walls")
                run.check(bool((off <= tol).all()), "map-off-the-walls", lambda: "%s: a point is %.4f m off the nearest wall (allowed %.4f)" % (where, off.max(), tol))
        if a.cfg["cls"] == "PointFusion":
            # the same samples, nothing in the way
            b = Actor(a.cfg, a.keys)
            b.fetch(w.open(), names, opt["channels_first"])
            while not b.done():
                b.step(False)
            d = compare((got, poses), (cloud(b.pc, len(b.keys)), np.stack(b.poses, 1)))
            run.check(d is None, "disturbed-map-differs", lambda: "%s: %s" % (describe_spec(spec), d))
        run.state(a.cfg["cls"], [len(g["points"]) for g in got])


PROPERTIES = [Reconstruction()]
