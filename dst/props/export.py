"""V01: plotly and open3d exports of maps and frames show their data, at any point of a history, and change nothing."""
import base64
import copy
import hashlib
import random
import re

import cv2
import numpy as np
import torch

from ..core import Property, SimCrash, Violation
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from .. import sched
from ..models import Cloud
from ..tools import npr, seed_torch
from . import frames as fr
from . import maps as mp


# ------------------------------------------------------------------ matching rows


def assign(ok):
    """True when every row of the boolean matrix can be given a column of its own."""
    cand = [np.flatnonzero(r) for r in ok]
    owner = {}

    def place(i, seen):
        for j in cand[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False

    return all(place(i, set()) for i in range(len(cand)))


def columns(model, b, colors, normals, to):
    out = [("point", model.points[b], None)]
    if colors and model.colors is not None:
        c = model.colors[b]
        big = c.size > 0 and c.max() >= 1.1
        if to == "plotly":
            c = np.clip(c if big else c * 255, 0, 255)
        else:
            c = np.clip(c / 255 if big else c, 0, 1)
        out.append(("colour", c, 1.001 if to == "plotly" else 1e-5))
    if normals and model.normals is not None:
        out.append(("normal", model.normals[b], 1e-5))
    return out


def judge_cloud(run, got, model, b, op, dt, where):
    """`got`: {"point": (n,3), "colour": .., "normal": ..} of the export."""
    want = columns(model, b, op["colors"], op["normals"], op["to"])
    run.stats["checks"] += 1
    if sorted(got) != sorted(w[0] for w in want):
        raise Violation("export-attributes", "%s: exported %s, expected %s" % (where, sorted(got), sorted(w[0] for w in want)))
    total = model.sizes[b]
    limit = op["max"]
    n = total if limit is None else min(total, limit)
    ok = np.ones((n, total), dtype=bool)
    for name, w, tol in want:
        g = np.asarray(got[name], dtype=np.float64).reshape(-1, 3) if np.size(got[name]) else np.zeros((0, 3))
        if len(g) != n:
            raise Violation("export-size", "%s: %d %ss exported, expected %d of %d" % (where, len(g), name, n, total))
        t = mp.tol_of(model, dt) if tol is None else tol
        ok &= (np.abs(g[:, None] - w[None]) <= t).all(-1)
        if n and not ok.any(1).all():
            i = int(np.flatnonzero(~ok.any(1))[0])
            raise Violation("export-wrong-data", "%s: exported row %d (%s) belongs to no point of element %d" % (
                where, i, {k: np.asarray(v).reshape(-1, 3)[i].tolist() for k, v in got.items()}, b))
    if not assign(ok):
        raise Violation("export-repeats", "%s: a point of element %d is exported twice" % (where, b))
    run.probe("exported-" + op["to"])
    if n == 0:
        run.probe("exported-no-points")
    if n < total:
        run.probe("exported-sample")


def cloud_call(op, b):
    def call(pc):
        seed_torch(op["seed"])
        call.before = generators()
        if op["to"] == "open3d":
            r = pc.open3d(b, include_colors=op["colors"], max_num_points=op["max"], include_normals=op["normals"])
            out = {"point": r.points}
            if r.colors is not None:
                out["colour"] = r.colors
            if r.normals is not None:
                out["normal"] = r.normals
            return out
        r = pc.plotly(b, include_colors=op["colors"], max_num_points=op["max"], as_figure=op["fig"], point_size=op["size"])
        if op["fig"]:
            if len(r.data) != 1:
                raise Violation("export-figure", "figure of one element has %d traces" % len(r.data))
            r = r.data[0]
        if r.marker.size != op["size"]:
            raise Violation("export-figure", "point size %r, asked for %r" % (r.marker.size, op["size"]))
        out = {"point": np.stack([np.asarray(x, dtype=np.float64) for x in (r.x, r.y, r.z)], -1)}
        if r.marker.color is not None:
            c = np.asarray(r.marker.color)
            if c.dtype != np.uint8:
                raise Violation("export-wrong-data", "colours are %s, not grey levels" % c.dtype)
            out["colour"] = c
        return out

    return call


# ------------------------------------------------------------------ frame figures


def decoded(image):
    head, data = image.source.split(",", 1)
    x = cv2.imdecode(np.frombuffer(base64.b64decode(data), np.uint8), cv2.IMREAD_UNCHANGED)
    if x is None:
        raise Violation("export-wrong-data", "an exported image cannot be decoded (%s)" % head)
    return x if x.ndim == 2 else x[..., ::-1]


def judge_image(run, got, want, name, where):
    """Within what JPEG compression loses."""
    run.stats["checks"] += 1
    if got.shape != want.shape:
        raise Violation("export-wrong-data", "%s: %s image of shape %s, expected %s" % (where, name, got.shape, want.shape))
    w = np.clip(np.floor(want), 0, 255).astype(np.uint8)
    ref = cv2.imdecode(cv2.imencode(".jpg", w[..., ::-1] if w.ndim == 3 else w, [int(cv2.IMWRITE_JPEG_QUALITY), 95])[1], cv2.IMREAD_UNCHANGED)
    ref = ref[..., ::-1] if ref.ndim == 3 else ref
    rms = lambda a, b: float(np.sqrt(np.mean((a.astype(float) - b.astype(float)) ** 2)))
    e, r = rms(got, want), rms(ref, want)
    if e > 2 * r + 2:
        raise Violation("export-wrong-data", "%s: %s image is off by %.1f grey levels (compression alone: %.1f)" % (where, name, e, r))


def judge_frames(run, got, model, b, op, where):
    frames, fig = got
    L = model.shape[1]
    rgb = model.rgb[b]
    rgb = np.clip(rgb * 255 if rgb.max() < 1.1 else rgb, 0, 255)
    depth = np.where(model.depth[b, ..., 0] > 0, model.depth[b, ..., 0], 0)
    if [str(f["name"]) for f in frames] != [str(i) for i in range(L)]:
        raise Violation("export-figure", "%s: frames %s of a sequence of %d" % (where, [f["name"] for f in frames], L))
    for i, f in enumerate(frames):
        if len(f["data"]) != (2 if op["depth"] else 1):
            raise Violation("export-figure", "%s: frame %d shows %d images" % (where, i, len(f["data"])))
        judge_image(run, decoded(f["data"][0]), rgb[i], "colour", "%s, frame %d" % (where, i))
        if op["depth"]:
            s = re.search(r"scale: x([0-9.eE+-]+)", f["data"][1].hovertemplate)
            if s is None:
                raise Violation("export-figure", "%s: the depth image of frame %d does not say its scale" % (where, i))
            s = float(s.group(1))
            top = depth.max() * s
            if depth.max() > 0 and not 25 <= top <= 255.5:
                raise Violation("export-wrong-data", "%s: scale x%g shows depths up to %g as grey level %g" % (where, s, depth.max(), top))
            judge_image(run, decoded(f["data"][1]), depth[i] * s, "depth", "%s, frame %d" % (where, i))
    if fig is not None:
        first, labels, buttons = fig
        if len(first) != len(frames[0]["data"]):
            raise Violation("export-figure", "%s: the figure opens with %d images" % (where, len(first)))
        for x, y in zip(first, frames[0]["data"]):
            if x.source != y.source:
                raise Violation("export-figure", "%s: the figure does not open with its first frame" % where)
        if labels != [str(i) for i in range(L)]:
            raise Violation("export-figure", "%s: slider steps %s of a sequence of %d" % (where, labels, L))
        if op["ms"] not in buttons:
            raise Violation("export-figure", "%s: no button plays at %d ms per frame: %s" % (where, op["ms"], buttons))
    run.probe("exported-figure" if fig is not None else "exported-images")
    if model.cf:
        run.probe("exported-channels-first")
    if op["depth"] and depth.max() == 0:
        run.probe("exported-dark-sequence")
    elif op["depth"] and (model.depth[b] < 0).any():
        run.probe("exported-negative-depth")


def frames_call(op, b):
    def call(x):
        call.before = generators()
        r = x.plotly(b, include_depth=op["depth"], as_figure=op["fig"], ms_per_frame=op["ms"])
        if not op["fig"]:
            return r, None
        labels = [s.label for s in r.layout.sliders[0].steps]
        buttons = [a.args[1]["frame"]["duration"] for m in r.layout.updatemenus for a in m.buttons if len(a.args) > 1]
        return list(r.frames), (list(r.data), labels, buttons)

    return call


# ------------------------------------------------------------------ the property


def draw_cloud_export(rng, s):
    return {"k": "export", "s": s, "u": round(rng.random(), 6), "to": rng.choice(["plotly", "open3d"]), "colors": rng.random() < 0.8,
            "normals": rng.random() < 0.5, "of": rng.choice([None, None, 0, "part", "part", "part", "all", "more"]), "fig": rng.random() < 0.15,
            "size": rng.choice([1, 2, 5]), "seed": rng.randrange(1 << 30)}


def draw_frame_export(rng, s):
    return {"k": "export", "s": s, "u": round(rng.random(), 6), "depth": rng.random() < 0.75, "fig": rng.random() < 0.1, "ms": rng.choice([20, 50, 70]),
            "seed": rng.randrange(1 << 30)}


def with_faults(rng, op, rate=0.3):
    if rng.random() < rate:
        op["tries"] = [[rng.choice(["alloc", "crash"]), round(rng.random(), 6)] for _ in range(rng.choice([1, 1, 2]))]
    return op


def generators():
    s = np.random.get_state()
    return (hashlib.md5(torch.get_rng_state().numpy().tobytes()).hexdigest(), hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
            hashlib.md5(s[1].tobytes() + repr(s[2:]).encode()).hexdigest())


def resolve(op, model, b):
    """The sample size an export asks for, of an element of the size it happens to have."""
    n, of = model.sizes[b], op["of"]
    u = npr("of", op["seed"]).uniform()
    limit = of if of in (None, 0) else {"part": int(u * n), "all": n, "more": n + 1 + int(5 * u)}[of]
    out = dict(op, max=limit)
    if op["to"] == "plotly":
        out["normals"] = False
    return out


def paint(model, how, seed):
    rs = npr("paint", seed)
    out = []
    for p in model.points:
        x = rs.uniform(0, 1, size=(len(p), 3))
        if how == "bright":
            x = np.floor(x * 256)
        elif how == "night" and len(p):
            # an image in the 0-255 range, black but for one lamp
            x[rs.randint(len(p))] = 200.0
        elif how == "wild":
            x = x * 400 - 70
        out.append(x)
    return out


def smooth(shape, how, seed):
    """Images JPEG compresses well: one colour gradient per frame."""
    rs = npr("rgb", seed)
    B, L, H, W = shape
    v, u = np.meshgrid(np.linspace(0, 1, H), np.linspace(0, 1, W), indexing="ij")
    a = rs.uniform(0, 1, size=(3, B, L, 1, 1, 3))
    x = (a[0] + 0.3 * a[1] * v[..., None] + 0.3 * a[2] * u[..., None]) / 1.6
    return x if how == "unit" else np.floor(x * 255) if how == "bright" else x * 330 - 30


class Exports(Property):
    id = "V01"
    quick_runs = 4000
    thorough_runs = 400000
    list_fields = ("ops", "prefix", "threads.0", "threads.1", "threads.2")
    real = ["gradslam.structures.Pointclouds", "gradslam.structures.RGBDImages", "gradslam.structures.structutils", "plotly", "OpenCV JPEG codec"]
    stubs = ["open3d (a point cloud that holds the arrays it is given)", "thread scheduling (replaced by the simulator's scheduler)"]
    rule = ("one run = a history of map or frame operations with exports (plotly, open3d) in between, under failed allocations and crashes, dark and "
            "negative depth, empty elements; or 2-3 threads exporting and reading one map or frame batch under a seeded schedule; every export is compared "
            "with the model's data at that point, and every map and frame with its model afterwards; distinct by operations, faults and schedule")
    assumptions = ["images are compared within twice what JPEG compression at quality 95 loses", "colours of an element that never exceed 1.1 are in the 0-1 range, as documented"]
    expected_probes = ("exported-plotly", "exported-open3d", "exported-no-points", "exported-sample", "exported-figure", "exported-images",
                       "exported-channels-first", "exported-dark-sequence", "exported-negative-depth", "failed-export", "interrupted-export",
                       "preempted-inside-gradslam")

    def __init__(self):
        self.maps, self.frames = mp.MapHistories(), fr.FrameHistories()

    # -- plans --------------------------------------------------------------
    def generate(self, rng, tier):
        r = rng.random()
        mode = "maps" if r < 0.5 else "frames" if r < 0.8 else "threads"
        if mode == "threads":
            return self.draw_threads(rng)
        n = rng.randint(2, 8) if tier == "quick" else rng.randint(2, 30)
        plan = {"mode": mode, "dtype": rng.choice(["f32", "f32", "f64"]) if mode == "maps" else "f32"}
        if mode == "maps":
            B = rng.choice([1, 2, 3])
            ops = [mp.draw_new(rng, B, i) for i in range(2)]
            for _ in range(n):
                s = rng.randrange(2)
                r = rng.random()
                if r < 0.2:
                    ops.append({"k": "paint", "s": s, "how": rng.choice(["unit", "bright", "night", "night", "wild"]), "seed": rng.randrange(1 << 30)})
                elif r < 0.45:
                    ops.append(mp.draw_op(rng, B, 2, ("getitem", "restart", "detach")))
                else:
                    ops.append(with_faults(rng, draw_cloud_export(rng, s)))
            ops.append(draw_cloud_export(rng, rng.randrange(2)))
        else:
            ops = [fr.draw_new(rng, i) for i in range(2)]
            for _ in range(n):
                s = rng.randrange(2)
                r = rng.random()
                if r < 0.2:
                    ops.append({"k": "paint", "s": s, "how": rng.choice(["unit", "bright", "wild"]), "seed": rng.randrange(1 << 30)})
                elif r < 0.3:
                    ops.append({"k": "shade", "s": s, "how": rng.choice(["dark", "missing", "far", "near", "mixed"]), "seed": rng.randrange(1 << 30)})
                elif r < 0.5:
                    ops.append(fr.draw_op(rng, 2, ("getitem", "restart", "detach")))
                else:
                    ops.append(with_faults(rng, draw_frame_export(rng, s)))
            ops.append(draw_frame_export(rng, rng.randrange(2)))
        plan["ops"] = ops
        return plan

    def draw_threads(self, rng):
        of = rng.choice(["maps", "maps", "frames"])
        plan = {"mode": "threads", "of": of, "dtype": "f32", "threads": {}, "sched": sched.draw(rng)}
        if of == "maps":
            plan["prefix"] = [mp.draw_new(rng, rng.choice([1, 2, 3]), 0), {"k": "paint", "s": 0, "how": rng.choice(["unit", "bright", "night"]), "seed": rng.randrange(1 << 30)}]
        else:
            plan["prefix"] = [fr.draw_new(rng, 0), {"k": "paint", "s": 0, "how": rng.choice(["unit", "bright"]), "seed": rng.randrange(1 << 30)}]
        for t in range(rng.choice([2, 2, 3])):
            acc = []
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < 0.5:
                    acc.append({"k": "view", "v": rng.choice(mp.VIEWS if of == "maps" else fr.VIEWS)})
                else:
                    acc.append(dict(draw_cloud_export(rng, 0) if of == "maps" else draw_frame_export(rng, 0), fig=False))
            plan["threads"][str(t)] = acc
        return plan

    # -- execution ------------------------------------------------------------
    def execute(self, plan, run):
        if plan["mode"] == "threads":
            return self.threads(plan, run)
        run.drawn = {}
        dt = mp.DT[plan["dtype"]]
        if plan["mode"] == "maps":
            pool, models = {i: mp.PC()() for i in range(2)}, {i: Cloud() for i in range(2)}
        else:
            pool, models = self.frames.start(dt)
        for n, op in enumerate(plan["ops"]):
            where = "step %d %s" % (n, mp.describe(op))
            run.shape(op["k"], {k: v for k, v in op.items() if k not in ("seed", "u")})
            models = self.one(plan["mode"], op, pool, models, dt, run, where)
            run.event(n, op["k"], [m.sizes if plan["mode"] == "maps" else m.shape for m in models.values()])
        run.nontrivial = True

    def one(self, mode, op, pool, models, dt, run, where):
        helper = self.maps if mode == "maps" else self.frames
        s = op["s"]
        m = models[s]
        if op["k"] == "paint":
            if mode == "maps":
                if m.empty:
                    return models
                n = m.copy()
                n.colors = [np.asarray(mp.T(x, dt).numpy(), dtype=np.float64) for x in paint(m, op["how"], op["seed"])]
                pool[s].colors_list = [mp.T(x, dt) for x in n.colors]
            else:
                n = m.copy()
                n.rgb = fr.rnd(smooth(m.shape, op["how"], op["seed"]), dt)
                pool[s].rgb_image = fr.T(n.lay(n.rgb), dt)
            return {**models, s: n}
        if op["k"] == "shade":
            n = m.copy()
            d = np.abs(n.depth) + 0.3
            rs = npr("shade", op["seed"])
            how = op["how"]
            if how == "dark":
                d = d * 0
            elif how == "missing":
                d = -d
            elif how == "far":
                d = d * 10 ** rs.uniform(1, 4)
            elif how == "near":
                d = d * 10 ** rs.uniform(-3, 0)
            else:
                d = d * rs.choice([0.0, 1.0, -1.0], size=d.shape[:2], p=[0.4, 0.4, 0.2])[:, :, None, None, None]
            n.depth = fr.rnd(d, dt)
            pool[s].depth_image = fr.T(n.lay(n.depth), dt)
            return {**models, s: n}
        if op["k"] != "export":
            return helper.one(op, pool, models, dt, run, where)
        call, judge = self.export(mode, op, m, dt)
        if call is None:
            return models
        for how, u in op.get("tries", []):
            self.attempt(call, how, u, pool, s, run)
            helper.check_pool(run, pool, models, dt, where + " (failed)", "export-changed-the-data")
        got = call(pool[s])
        self.check_generators(run, call.before, generators(), where)
        judge(run, got, where)
        helper.check_pool(run, pool, models, dt, where, "export-changed-the-data")
        return models

    def check_generators(self, run, before, after, where):
        """A sample is drawn from torch's generator as it stands; the generators of others are left alone."""
        run.check(before[1:] == after[1:], "generator-changed", where + ": Python's or numpy's random generator moved")
        if before[0] != after[0]:
            was = run.drawn.setdefault(after[0], before[0])
            run.check(was == before[0], "generator-reset", where + ": torch's random generator came out in one state from two")

    def export(self, mode, op, m, dt):
        if mode == "maps":
            if m.empty:
                return None, None
            b = min(int(op["u"] * m.B), m.B - 1)
            op = resolve(op, m, b)
            if op["colors"] and m.colors is not None and m.colors[b].size and abs(m.colors[b].max() - 1.1) < 1e-4:
                return None, None
            return cloud_call(op, b), lambda run, got, where: judge_cloud(run, got, m, b, op, dt, where)
        b = min(int(op["u"] * m.shape[0]), m.shape[0] - 1)
        if abs(m.rgb[b].max() - 1.1) < 1e-4:
            return None, None
        return frames_call(op, b), lambda run, got, where: judge_frames(run, got, m, b, op, where)

    def attempt(self, call, how, u, pool, s, run):
        mode = alloc_faults if how == "alloc" else CrashAt
        trial = copy.deepcopy(pool)[s]
        with mode() as c:
            call(trial)
        if c.n == 0:
            return
        k = min(int(u * c.n), c.n - 1)
        try:
            with mode([k] if how == "alloc" else k):
                call(pool[s])
        except SimCrash:
            run.fault("crash-inside-export")
            run.probe("interrupted-export")
        except RuntimeError as e:
            if not is_injected_alloc(e):
                raise
            run.fault("failed-allocation")
            run.probe("failed-export")

    def threads(self, plan, run):
        run.drawn = {}
        dt = mp.DT[plan["dtype"]]
        of = plan["of"]
        if of == "maps":
            pool, models, view = {0: mp.PC()()}, {0: Cloud()}, mp.check_view
        else:
            pool, models = self.frames.start(dt)
            view = fr.check_view
        for op in plan["prefix"]:
            models = self.one(of, op, pool, models, dt, run, "prefix")
        shared, model = pool[0], models[0]
        run.shape([[a["k"], a.get("v")] for t in sorted(plan["threads"]) for a in plan["threads"][t]])
        names = sorted(plan["threads"])

        def body(t):
            accs = [(a, self.export(of, a, model, dt) if a["k"] == "export" else None) for a in plan["threads"][t]]

            def go():
                for a, ex in accs:
                    if ex is None:
                        view(run, shared, model, a["v"], dt, "thread %s reading %s" % (t, a["v"]), "reader-saw-wrong-value")
                    elif ex[0] is not None:
                        ex[1](run, ex[0](shared), "thread %s exporting" % t)

            return go

        for t, (status, val) in zip(names, sched.Scheduler(plan["sched"], run).go([body(t) for t in names])):
            if status == "error":
                raise val
        (mp if of == "maps" else fr).check_all(run, shared, model, dt, "after all threads", kind="export-changed-the-data")


PROPERTIES = [Exports()]
