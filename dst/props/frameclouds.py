"""F04: maps cut from RGB-D frames hold exactly the pixels asked for, and stay apart from the frames."""
import numpy as np
import torch

from ..core import Violation
from ..models import Cloud
from ..tools import diff_text, npr, to_np
from . import frames as fr
from . import maps as mp

SLOTS = ("c0", "c1")


def cut(m, l, op):
    """The map the frames' model gives, and per batch element where its normals are determined and how well."""
    ds = op["ds"]
    step = ds or 1
    keep = m.mask()[:, l, ::step, ::step, 0] if (ds or op["filter"]) else None
    glob = bool(ds) or op["global"]
    small = lambda x: x[:, l, ::step, ::step]
    pick = lambda x: [(y[k] if keep is not None else y.reshape(-1, y.shape[-1])) for y, k in zip(small(x), keep if keep is not None else small(x))]
    c = Cloud(points=pick(m.global_vertex() if glob else m.vertex()), normals=pick(m.global_normal() if glob else m.normal()), colors=pick(m.rgb))
    _, n = m.normal_parts()
    scale = max(1.0, float(np.abs(m.vertex()).max()))
    return c, pick(n), pick(np.broadcast_to(m.mask(), n.shape)), scale


class FrameClouds(fr.FrameFaults):
    id = "F04"
    quick_runs = 2500
    thorough_runs = 250000
    allow = ("getitem", "restart", "detach")
    fault_rate = 0.25
    real = fr.FrameHistories.real + ["gradslam.structures.utils.pointclouds_from_rgbdimages", "gradslam.odometry.icputils.downsample_rgbdimages",
                                     "gradslam.structures.Pointclouds"]
    rule = ("one run = a history over 2 frame batches and 2 maps: the operations of F02 on the frames, maps cut from them at any moment (local or world coordinates, "
            "with or without missing depths, thinned or not, cold or warm frames, either layout), also with a failing allocation or an interruption, "
            "in-place operations on the maps, maps thinned by a pixel table, rejected cuts; after every operation frames and maps are compared with a float64 model; distinct by operations and faults")
    expected_probes = ("cut-local", "cut-world", "cut-all-pixels", "cut-thinned", "cut-channels-first", "cut-warm", "cut-whole-batch", "missing-depth", "nothing-left",
                       "failed-cut", "interrupted-cut", "map-changed", "map-thinned", "frames-changed-under-map")

    def generate(self, rng, tier):
        plan = fr.FrameFaults.generate(self, rng, tier)
        ops = []
        for op in plan["ops"]:
            op.pop("holes", None)  # depth that is no number is F01's matter
            ops.append(op)
            r = rng.random()
            if r < 0.45:
                o = {"k": "cut", "s": rng.randrange(self.nslots), "d": rng.choice(SLOTS), "global": rng.random() < 0.5, "filter": rng.random() < 0.6,
                     "ds": rng.choice([None, None, None, None, 1, 2, 3, 5]), "l": rng.randrange(3), "pinned": rng.random() < 0.7, "seed": rng.randrange(1 << 30)}
                if rng.random() < 0.3:
                    o["fault"] = [round(rng.random(), 6)]
                if rng.random() < 0.25:
                    o["crash"] = round(rng.random(), 6)
                ops.append(o)
                if rng.random() < 0.2:
                    ops.append({"k": "refused-cut", "s": rng.randrange(self.nslots), "ds": rng.random() < 0.5, "what": rng.choice(["type", "length", "ratio"])})
            elif r < 0.65:
                o = mp.draw_op(rng, 2, 2, ("restart",))
                for f in ("s", "d", "o"):
                    if f in o:
                        o[f] = SLOTS[o[f]]
                o["map"] = o["k"]
                o["k"] = "map"
                ops.append(o)
            elif r < 0.73:
                o = {"k": "thin", "s": rng.choice(SLOTS), "d": rng.choice(SLOTS), "ds": rng.choice([1, 1, 2, 3]), "seed": rng.randrange(1 << 30)}
                if rng.random() < 0.3:
                    o["fault"] = [round(rng.random(), 6)]
                ops.append(o)
        plan["ops"] = ops
        return plan

    def start(self, dt):
        pool, models = fr.FrameFaults.start(self, dt)
        for c in SLOTS:
            models[c] = Cloud()
            pool[c] = mp.PC()()
        return pool, models

    def check_pool(self, run, pool, models, dt, where, kind="stale-or-wrong-map"):
        snap = mp.snapshot(pool)
        for i, m in models.items():
            if i in SLOTS:
                mp.check_all(run, snap[i], m, dt, "%s, map %s" % (where, i), kind="map-not-as-cut" if kind == "stale-or-wrong-map" else kind)
            else:
                fr.check_all(run, snap[i], m, dt, "%s, frames %d" % (where, i), kind=kind)

    def execute(self, plan, run):
        dt = fr.DT[plan["dtype"]]
        pool, models = self.start(dt)
        self.warm = set()
        for n, op in enumerate(plan["ops"]):
            where = "step %d %s" % (n, fr.describe(op))
            run.shape(op["k"], op.get("what"), op.get("how"), op.get("map"), op.get("ds"), op.get("global"), op.get("filter"), op["s"])
            models = self.one(op, pool, models, dt, run, where)
            if op["k"] == "read":
                self.warm.add(op["s"])
            if op["k"] in ("set", "new") and any(not models[c].empty for c in SLOTS):
                run.probe("frames-changed-under-map")
            run.event(n, op["k"], [m.shape if i not in SLOTS else m.sizes for i, m in models.items()])
        self.check_pool(run, pool, models, dt, "end")

    def one(self, op, pool, models, dt, run, where):
        if op["k"] == "cut":
            return self.cut(op, pool, models, dt, run, where)
        if op["k"] == "thin":
            return self.thin(op, pool, models, dt, run, where)
        if op["k"] == "refused-cut":
            return self.refused(op, pool, models, dt, run, where)
        if op["k"] == "map":
            o = dict(op, k=op["map"])
            if o["k"] == "read":
                for v in o["views"]:
                    mp.check_view(run, pool[o["s"]], models[o["s"]], v, dt, where)
                return models
            st = mp.plan_step(o, models, dt)
            if st is None:
                return models
            st.act(pool)
            if not models[o["s"]].empty:
                run.probe("map-changed")
            self.check_pool(run, pool, st.after, dt, where, "frames-and-map-mixed")
            return st.after
        return fr.FrameFaults.one(self, op, pool, models, dt, run, where)

    def caller(self, op, m, l):
        from gradslam.odometry.icputils import downsample_rgbdimages
        from gradslam.structures.utils import pointclouds_from_rgbdimages

        whole = m.shape[1] == 1 and op["pinned"]

        def act(pool):
            f = pool[op["s"]] if whole else pool[op["s"]][:, l]
            if op["ds"]:
                pool[op["d"]] = downsample_rgbdimages(f, op["ds"])
            else:
                pool[op["d"]] = pointclouds_from_rgbdimages(f, global_coordinates=op["global"], filter_missing_depths=op["filter"])

        return act, whole

    def cut(self, op, pool, models, dt, run, where):
        m = models[op["s"]]
        l = op["l"] % m.shape[1]
        want, size, valid, scale = cut(m, l, op)
        act, whole = self.caller(op, m, l)
        run.probe("cut-thinned" if op["ds"] else ("cut-world" if op["global"] else "cut-local"))
        if not op["ds"] and not op["filter"]:
            run.probe("cut-all-pixels")
        if m.cf:
            run.probe("cut-channels-first")
        if op["s"] in self.warm:
            run.probe("cut-warm")
        if whole:
            run.probe("cut-whole-batch")
        if not sum(want.sizes):
            run.probe("nothing-left")
        done = False
        if "crash" in op and self.interrupt(act, op["crash"], pool, run):
            run.probe("interrupted-cut")
            self.check_pool(run, pool, models, dt, where + " (interrupted)", "wrong-after-failure")
        for u in op.get("fault", []):
            r = self.attempt(act, u, pool, run)
            done = r is False
            if r:
                run.probe("failed-cut")
                self.check_pool(run, pool, models, dt, where + " (allocation failed)", "wrong-after-failure")
        if not done:
            act(pool)
        after = dict(models)
        after[op["d"]] = self.adopt(run, pool[op["d"]], want, size, valid, scale, dt, where)
        self.check_pool(run, pool, after, dt, where)
        run.state("cut", want.sizes, m.cf)
        return after

    def adopt(self, run, real, want, size, valid, scale, dt, where):
        """Compares normals as far as they are determined, and from then on holds the map to the ones it was given."""
        got = mp.snapshot(real)
        mp.check_view(run, got, want, "sizes", dt, where, "wrong-pixels")
        mp.check_view(run, got, want, "has", dt, where, "wrong-pixels")
        have = [to_np(x).astype(np.float64) for x in got.normals_list]
        cond = scale * scale * (3e-6 if dt == torch.float32 else 1e-14)
        for b, (g, w, n, ok) in enumerate(zip(have, want.normals, size, valid)):
            run.stats["checks"] += 1
            if g.shape != w.shape:
                raise Violation("wrong-pixels", "%s: %s" % (where, diff_text("normals of %d" % b, g, w)))
            tol = np.where(n > 0, cond / np.maximum(n, 1e-30), 0) * 10 + (1e-4 if dt == torch.float32 else 1e-8)
            judged = np.broadcast_to((n > 10 * cond) | ~ok, w.shape)
            if not (np.where(judged, np.abs(g - w), 0) <= tol).all():
                raise Violation("wrong-pixels", "%s: %s" % (where, diff_text("normals of %d" % b, np.where(judged, g, w), w)))
        out = want.copy()
        out.normals = have
        return out

    def thin(self, op, pool, models, dt, run, where):
        """A map thinned by a table saying which of its points is seen in which pixel."""
        from gradslam.odometry.icputils import downsample_pointclouds

        m = models[op["s"]]
        if m.empty:
            return models
        rs = npr("thin", op["seed"])
        rows = []
        for b, n in enumerate(m.sizes):
            for i in range(n):
                if rs.uniform() < 0.7:
                    rows.append([b, i, rs.randint(0, 6), rs.randint(0, 6)])
        table = torch.tensor(rows, dtype=torch.int64).reshape(-1, 4)
        kept = [[i for a, i, v, u in rows if a == b and v % op["ds"] == 0 and u % op["ds"] == 0] for b in range(m.B)]
        want = Cloud()
        for k in ("points", "normals", "colors"):
            if getattr(m, k) is not None:
                setattr(want, k, [x[i].reshape(-1, x.shape[-1]) for x, i in zip(getattr(m, k), kept)])

        def act(p):
            p[op["d"]] = downsample_pointclouds(p[op["s"]], table, op["ds"])

        done = False
        for u in op.get("fault", []):
            r = self.attempt(act, u, pool, run)
            done = r is False
            if r:
                self.check_pool(run, pool, models, dt, where + " (allocation failed)", "wrong-after-failure")
        if not done:
            act(pool)
        run.probe("map-thinned")
        after = dict(models)
        after[op["d"]] = want
        self.check_pool(run, pool, after, dt, where, "wrong-pixels")
        table.fill_(-1)
        self.check_pool(run, pool, after, dt, where + " (table overwritten)", "wrong-pixels")
        return after

    def refused(self, op, pool, models, dt, run, where):
        from gradslam.odometry.icputils import downsample_rgbdimages
        from gradslam.structures.utils import pointclouds_from_rgbdimages

        m, f = models[op["s"]], pool[op["s"]]
        if op["what"] == "length" and m.shape[1] == 1:
            return models
        arg = pool["c0"] if op["what"] == "type" else f
        try:
            if op["what"] == "ratio":
                downsample_rgbdimages(f[:, 0], 2.0)
            elif op["ds"]:
                downsample_rgbdimages(arg, 2)
            else:
                pointclouds_from_rgbdimages(arg)
        except (TypeError, ValueError) as e:
            run.event("rejected", type(e).__name__)
            run.fault("rejected-call")
        else:
            raise Violation("accepted-invalid", "%s was accepted" % where)
        self.check_pool(run, pool, models, dt, where)
        return models


PROPERTIES = [FrameClouds()]
