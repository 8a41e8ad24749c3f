"""F01-F03: RGB-D frames and the maps derived from them, under histories, faults and schedules."""
import copy

import numpy as np
import torch

from ..core import Property, SimCrash, Violation
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from .. import sched
from ..tools import close, diff_text, dump_load, npr, rigid, rng_of, rotation, to_np

DT = {"f32": torch.float32, "f64": torch.float64}


def RI():
    from gradslam.structures import RGBDImages

    return RGBDImages


class Frames(object):
    """Model: images kept channels-last in float64, everything derived on demand."""

    def __init__(self, rgb, depth, K, poses, cf, pix=None):
        self.rgb, self.depth, self.K, self.poses, self.cf, self.pix = rgb, depth, K, poses, cf, pix

    def copy(self):
        return copy.deepcopy(self)

    @property
    def shape(self):
        return self.rgb.shape[:4]

    def lay(self, x):
        return np.moveaxis(x, -1, 2) if self.cf else x

    def mask(self):
        return self.depth > 0

    def pixels(self):
        B, L, H, W = self.shape
        if self.pix is not None:
            return self.pix
        v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
        p = np.stack([u, v, np.ones_like(u)], -1).astype(np.float64)
        return np.broadcast_to(p, (B, L, H, W, 3))

    def vertex(self):
        fx, fy = self.K[:, :, 0, 0], self.K[:, :, 1, 1]
        cx, cy = self.K[:, :, 0, 2], self.K[:, :, 1, 2]
        e = lambda a: a[:, :, None, None]
        p = self.pixels()
        x = (p[..., 0] - e(cx) * p[..., 2]) / e(fx)
        y = (p[..., 1] - e(cy) * p[..., 2]) / e(fy)
        v = np.stack([x, y, p[..., 2]], -1) * self.depth
        return v * self.mask()

    def global_vertex(self):
        v = self.vertex()
        if self.poses is None:
            return v
        R, t = self.poses[..., :3, :3], self.poses[..., :3, 3]
        g = np.einsum("bsjc,bshwc->bshwj", R, v) + t[:, :, None, None, :]
        return g * self.mask()

    def steps(self):
        """The longer of each pixel's two steps to its neighbours."""
        return np.maximum(*(np.nan_to_num(np.linalg.norm(x, axis=-1, keepdims=True), nan=np.inf) for x in self.differences()))

    def differences(self):
        v = self.vertex()
        dh, dv = np.zeros_like(v), np.zeros_like(v)
        dh[:, :, :, :-1] = v[:, :, :, 1:] - v[:, :, :, :-1]
        dv[:, :, :-1] = v[:, :, 1:] - v[:, :, :-1]
        dh[:, :, :, -1] = dh[:, :, :, -2]
        dv[:, :, -1] = dv[:, :, -2]
        return dh, dv

    def normal_parts(self):
        dh, dv = self.differences()
        c = np.cross(dh, dv)
        return c, np.linalg.norm(c, axis=-1, keepdims=True)

    def normal(self):
        c, n = self.normal_parts()
        return c / np.where(n == 0, 1, n) * self.mask()

    def global_normal(self):
        n = self.normal()
        if self.poses is None:
            return n
        return np.einsum("bsjc,bshwc->bshwj", self.poses[..., :3, :3], n)


VIEWS = ["rgb_image", "depth_image", "intrinsics", "poses", "valid_depth_mask", "vertex_map", "normal_map",
         "global_vertex_map", "global_normal_map", "meta"]


def anything_where_nan(got, want):
    if got.shape != want.shape:
        return got, want
    free = np.isnan(want)
    return np.where(free, 0, got), np.where(free, 0, want)


def check_view(run, real, m, name, dt, where, kind="stale-or-wrong-map"):
    run.stats["checks"] += 1
    eps = 3e-5 if dt == torch.float32 else 1e-9
    if name == "meta":
        got = (len(real), tuple(real.shape), bool(real.channels_first), int(real.cdim), bool(real.has_poses))
        want = (m.shape[0], tuple(m.shape), m.cf, 2 if m.cf else 4, m.poses is not None)
        if got != want:
            raise Violation(kind, "%s: (len, shape, channels_first, cdim, has_poses) %s, expected %s" % (where, got, want))
        return
    got = getattr(real, name)
    if name == "poses" and m.poses is None:
        if got is not None:
            raise Violation(kind, "%s: poses should be absent" % where)
        return
    if got is None:
        raise Violation(kind, "%s: %s is missing" % (where, name))
    got = to_np(got)
    if name in ("rgb_image", "depth_image"):
        want = m.lay(m.rgb if name == "rgb_image" else m.depth)
        tol = 1e-6 * 255
        if got.shape == want.shape and np.isnan(want).any():
            run.check((np.isnan(got) == np.isnan(want)).all(), kind, lambda: "%s: %s has its missing values elsewhere" % (where, name))
            got, want = anything_where_nan(got, want)
    elif name == "intrinsics":
        want, tol = m.K, 1e-4
    elif name == "poses":
        want, tol = m.poses, 1e-6
    elif name == "valid_depth_mask":
        want, tol = m.lay(m.mask()), 0
    elif name in ("vertex_map", "global_vertex_map"):
        want = m.lay(m.vertex() if name == "vertex_map" else m.global_vertex())
        # without a number for the depth there is none for the point
        got, want = anything_where_nan(got, want)
        tol = eps * max(1.0, float(np.abs(want).max()))
    else:
        want = m.lay(m.normal() if name == "normal_map" else m.global_normal())
        if got.shape != want.shape:
            raise Violation(kind, "%s: %s shape %s, expected %s" % (where, name, got.shape, want.shape))
        c, n = m.normal_parts()
        got, want = anything_where_nan(got, want)
        v = m.vertex()
        scale = max(1.0, float(np.abs(np.nan_to_num(v)).max()))
        # directions of (nearly) degenerate cross products are not determined at this precision
        cond = scale * np.minimum(scale, 2 * m.steps()) * (3e-6 if dt == torch.float32 else 1e-14)
        tol3 = np.where(n > 0, cond / np.maximum(n, 1e-30), 0) * 10 + (1e-4 if dt == torch.float32 else 1e-8)
        ok = np.broadcast_to(n > 10 * cond, c.shape) | ~np.broadcast_to(m.mask(), c.shape)
        d = np.where(m.lay(ok), np.abs(got - want), 0)
        bad = ~(d <= m.lay(np.broadcast_to(tol3, c.shape)))
        if bad.any():
            raise Violation(kind, where + ": " + diff_text(name, np.where(m.lay(ok), got, want), want))
        return
    if not close(got, want, tol):
        raise Violation(kind, where + ": " + diff_text(name, got, want))


def sent_away(run, real, m, where):
    """A copy on another device (torch's data-less one is the only other here): everything the frames have is there, on that device."""
    r = real.to(torch.device("meta"))
    run.probe("other-device")
    bad = None
    if r is real or r.device.type != "meta":
        bad = "are on %s" % r.device
    elif (tuple(r.shape), bool(r.channels_first), bool(r.has_poses)) != (tuple(m.shape), m.cf, m.poses is not None):
        bad = "have another shape, layout or lost their poses"
    else:
        for v in VIEWS[:-1]:
            x = getattr(r, v)
            if x is None and v == "poses" and m.poses is None:
                continue
            if x is None or x.device.type != "meta":
                bad = "have %s %s" % (v, "missing" if x is None else "on another device")
            elif tuple(x.shape) != tuple(getattr(copy.deepcopy(real), v).shape):
                bad = "have %s of shape %s" % (v, tuple(x.shape))
    run.check(bad is None, "stale-or-wrong-map", lambda: "%s: the copies on another device %s" % (where, bad))


def check_all(run, real, m, dt, where, order=None, kind="stale-or-wrong-map"):
    for v in order or VIEWS:
        check_view(run, real, m, v, dt, where, kind)


# ------------------------------------------------------------------ values


def val_rgb(rs, shape):
    return np.floor(rs.uniform(0, 256, size=tuple(shape) + (3,)))


def val_depth(rs, shape, holes=False, zoom=1):
    """`zoom`: a window of a picture that many times finer, of something smooth at that scale."""
    B, L, H, W = shape
    v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    d = np.zeros((B, L, H, W))
    for b in range(B):
        for l in range(L):
            a = rs.uniform(-0.1, 0.1, size=4)
            relief = a[0] * u + a[1] * v + a[2] * np.sin(u) + rs.uniform(0, 0.15) * rs.uniform(-1, 1, (H, W))
            d[b, l] = rs.uniform(1, 3) * (rs.choice([1, 0.2]) if zoom > 1 else 1) + relief / zoom
    d = np.maximum(d, 0.3 if zoom == 1 else 0.1)
    drop = rs.choice([0, 0, 0.1, 0.4, 1.0], p=[0.3, 0.2, 0.25, 0.2, 0.05])
    d[rs.uniform(size=d.shape) < drop] = 0
    if rs.uniform() < 0.25:
        # sensors that mark missing depth with a negative number
        d[rs.uniform(size=d.shape) < 0.2] = -rs.choice([1.0, 1e-3, 0.7])
    if holes:  # ... or with no number at all
        d[rs.uniform(size=d.shape) < 0.15] = np.nan
    return d[..., None]


def val_K(rs, B, H, W, zoom=1):
    K = np.zeros((B, 1, 4, 4))
    for b in range(B):
        K[b, 0] = np.eye(4)
        K[b, 0, 0, 0], K[b, 0, 1, 1] = rs.uniform(0.7, 1.5) * W * zoom, rs.choice([1, 1, -1]) * rs.uniform(0.7, 1.5) * H * zoom
        K[b, 0, 0, 2], K[b, 0, 1, 2] = rs.uniform(0.3, 0.7) * W, rs.uniform(0.3, 0.7) * H
    return K


def val_poses(rs, B, L):
    return np.stack([np.stack([rigid(rs) for _ in range(L)]) for _ in range(B)])


def T(x, dt):
    return torch.tensor(np.ascontiguousarray(x), dtype=dt)


def rnd(x, dt):
    return None if x is None else np.asarray(T(x, dt).numpy(), dtype=np.float64)


def draw_new(rng, slot):
    return {"k": "new", "s": slot, "B": rng.choice([1, 1, 2, 3]), "L": rng.choice([1, 1, 2, 3]), "H": rng.choice([2, 3, 4, 6]),
            "W": rng.choice([2, 3, 5, 7]), "poses": rng.random() < 0.7, "cf": rng.random() < 0.4, "pix": rng.random() < 0.2,
            "zoom": rng.choice([1, 1, 1, 1, 30, 300]), "seed": rng.randrange(1 << 30)}


def make_model(op, dt):
    rs = npr("frames", op["seed"])
    shape = (op["B"], op["L"], op["H"], op["W"])
    z = op.get("zoom", 1)
    m = Frames(val_rgb(rs, shape), rnd(val_depth(rs, shape, op.get("holes"), z), dt), rnd(val_K(rs, op["B"], op["H"], op["W"], z), dt),
               rnd(val_poses(rs, op["B"], op["L"]), dt) if op["poses"] else None, op["cf"])
    if op.get("pix"):
        p = np.array(m.pixels())
        p[..., :2] += rs.uniform(-0.4, 0.4, size=p[..., :2].shape)
        m.pix = rnd(p, dt)
    return m


def make_real(m, dt):
    # Pixel positions are (B, L, H, W, 3) in either layout.
    return RI()(T(m.lay(m.rgb), dt), T(m.lay(m.depth), dt), T(m.K, dt), None if m.poses is None else T(m.poses, dt),
                channels_first=m.cf, pixel_pos=None if m.pix is None else T(m.pix, dt))


BAD = ["rgb-shape", "depth-shape", "intrinsics-shape", "poses-shape", "depth-type", "getitem-type", "getitem-range", "getitem-many"]


def draw_op(rng, nslots, allow, fault_rate=0.0):
    s = rng.randrange(nslots)
    r = rng.random()
    if r < 0.08:
        op = draw_new(rng, s)
    elif r < 0.36:
        op = {"k": "set", "s": s, "what": rng.choice(["depth_image", "depth_image", "intrinsics", "poses", "rgb_image"])}
        if rng.random() < 0.4:
            op["how"] = rng.choice(["half", "half", "one", "last"])
        elif rng.random() < 0.2:
            op["zoom"] = rng.choice([30, 300])
    elif r < 0.48:
        op = {"k": rng.choice(["to_channels_first_", "to_channels_last_"]), "s": s}
    elif r < 0.60:
        op = {"k": rng.choice(["to_channels_first", "to_channels_last", "clone", "to"]), "s": s, "d": rng.randrange(nslots),
              "copy": rng.random() < 0.6}
    elif r < 0.84:
        vs = VIEWS[4:]
        rng.shuffle(vs)
        op = {"k": "read", "s": s, "views": vs[: rng.choice([1, 1, 2, 3])]}
    elif r < 0.90 and "getitem" in allow:
        op = {"k": "getitem", "s": s, "d": rng.randrange(nslots), "how": rng.choice(["b", "bl", "sl", "slsl", "b:"])}
    elif r < 0.93 and "restart" in allow:
        op = {"k": "restart", "s": s}
    elif r < 0.97 and "bad" in allow:
        op = {"k": "bad", "s": s, "what": rng.choice(BAD)}
    elif "detach" in allow:
        op = {"k": "detach", "s": s, "d": rng.randrange(nslots)}
    else:
        op = {"k": "read", "s": s, "views": ["global_normal_map"]}
    op.setdefault("seed", rng.randrange(1 << 30))
    if rng.random() < fault_rate:
        op["fault"] = [round(rng.random(), 6) for _ in range(rng.choice([1, 1, 1, 2]))]
    return op


class Step(object):
    def __init__(self, act, after, dst, args=(), out=False):
        self.act, self.after, self.dst, self.args, self.out = act, after, dst, list(args), out


def kept_but_one(old, new, op):
    """What was there before but for one frame (the last or any)."""
    out = old.copy()
    i = np.unravel_index(op["seed"] % 97 % (old.shape[0] * old.shape[1]) if op["how"] == "one" else old.shape[0] * old.shape[1] - 1, old.shape[:2])
    out[i] = new[i]
    return out


def altered(old, op):
    """A picture much like the one before: mirrored, a pixel changed, or the last frame."""
    if op["how"] == "half":
        return old[:, :, :, ::-1].copy()
    if op["how"] == "one":
        out = old.copy()
        i = np.unravel_index(op["seed"] % int(np.prod(old.shape)), old.shape)
        out[i] = 2.5 if not out[i] > 0 else 0
        return out
    return kept_but_one(old, old[:, :, ::-1], op)


def plan_step(op, models, dt):
    k, s = op["k"], op["s"]
    m = models[s]
    rs = npr("fop", op.get("seed", 0))
    after = dict(models)
    if k == "new":
        n = make_model(op, dt)
        after[s] = n

        def act(pool):
            pool[s] = make_real(n, dt)

        return Step(act, after, s)
    if k == "set":
        n = m.copy()
        what = op["what"]
        B, L, H, W = m.shape
        if what == "rgb_image":
            n.rgb = altered(m.rgb, op) if op.get("how") else val_rgb(rs, m.shape)
            v = T(n.lay(n.rgb), dt)
        elif what == "depth_image":
            n.depth = altered(m.depth, op) if op.get("how") else rnd(val_depth(rs, m.shape, op.get("holes"), op.get("zoom", 1)), dt)
            v = T(n.lay(n.depth), dt)
        elif what == "intrinsics":
            n.K = rnd(val_K(rs, B, H, W, op.get("zoom", 1)), dt)
            if op.get("how") == "half":  # only the focal lengths, or only the centre
                keep = (0, 1) if op["seed"] % 2 else (2, 2)
                n.K[..., 0, keep[0]], n.K[..., 1, keep[1]] = m.K[..., 0, keep[0]], m.K[..., 1, keep[1]]
            elif op.get("how"):
                n.K = kept_but_one(m.K, n.K, op)
            v = T(n.K, dt)
        else:
            n.poses = rnd(val_poses(rs, B, L), dt)
            if op.get("how") == "half" and m.poses is not None:  # only turned, or only moved
                keep = np.s_[..., :3, 3] if op["seed"] % 2 else np.s_[..., :3, :3]
                n.poses[keep] = m.poses[keep]
            elif op.get("how") and m.poses is not None:
                n.poses = kept_but_one(m.poses, n.poses, op)
            v = T(n.poses, dt)
        after[s] = n

        def act(pool):
            setattr(pool[s], what, v)

        return Step(act, after, s)
    if k in ("to_channels_first_", "to_channels_last_"):
        n = m.copy()
        n.cf = "first" in k
        after[s] = n

        def act(pool):
            r = getattr(pool[s], k)()
            if r is not pool[s]:
                raise Violation("wrong-return", "%s did not return self" % k)

        return Step(act, after, s)
    d = op.get("d", s)
    if k in ("to_channels_first", "to_channels_last"):
        n = m.copy()
        n.cf = "first" in k
        same = not op["copy"] and n.cf == m.cf
        if same and d != s:
            return None  # returns self: two slots would name one object
        after[d] = n

        def act(pool):
            pool[d] = getattr(pool[s], k)(copy=op["copy"])

        return Step(act, after, d, out=True)
    if k in ("clone", "detach", "to"):
        after[d] = m.copy()

        def act(pool):
            pool[d] = pool[s].to(torch.device("cpu"), copy=True) if k == "to" else getattr(pool[s], k)()

        return Step(act, after, d, out=True)
    if k == "restart":
        after[s] = m.copy()

        def act(pool):
            pool[s] = dump_load(pool[s])

        return Step(act, after, s)
    if k == "getitem":
        B, L = m.shape[:2]
        b, l = int(rs.randint(0, B)), int(rs.randint(0, L))
        be, le = int(rs.randint(b + 1, B + 1)), int(rs.randint(l + 1, L + 1))
        how = op["how"]
        if how == "b":
            idx, sb, sl = b, slice(b, b + 1), slice(0, L)
        elif how == "bl":
            idx, sb, sl = (b, l), slice(b, b + 1), slice(l, l + 1)
        elif how == "sl":
            idx, sb, sl = (slice(None), l), slice(0, B), slice(l, l + 1)
        elif how == "b:":
            idx, sb, sl = (b, slice(None)), slice(b, b + 1), slice(0, L)
        else:
            idx, sb, sl = (slice(b, be), slice(l, le)), slice(b, be), slice(l, le)
        n = Frames(m.rgb[sb, sl].copy(), m.depth[sb, sl].copy(), m.K[sb].copy(),
                   None if m.poses is None else m.poses[sb, sl].copy(), m.cf,
                   None if m.pix is None else m.pix[sb, sl].copy())
        after[d] = n

        def act(pool):
            pool[d] = pool[s][idx]

        return Step(act, after, d, out=True)
    return None


def bad_call(op, m, dt):
    w = op["what"]
    B, L, H, W = m.shape
    z = lambda *sh: torch.zeros(*sh, dtype=dt)
    if w == "rgb-shape":
        return lambda o: setattr(o, "rgb_image", z(B, L, H, W, 4))
    if w == "depth-shape":
        return lambda o: setattr(o, "depth_image", z(B, L, H + 1, W, 1))
    if w == "intrinsics-shape":
        return lambda o: setattr(o, "intrinsics", z(B, 1, 3, 3))
    if w == "poses-shape":
        return lambda o: setattr(o, "poses", z(B, L + 1, 4, 4))
    if w == "depth-type":
        return lambda o: setattr(o, "depth_image", [1.0])
    if w == "getitem-type":
        return lambda o: o["x"]
    if w == "getitem-range":
        return lambda o: o[B + 2]
    return lambda o: o[0, 0, 0]


def describe(op):
    return {k: v for k, v in op.items() if k != "seed"}


class FrameHistories(Property):
    """F01: maps derived from RGB-D frames always reflect the frames' current data."""

    id = "F01"
    quick_runs = 3000
    thorough_runs = 300000
    allow = ("getitem", "restart", "bad", "detach")
    fault_rate = 0.0
    nslots = 2
    real = ["gradslam.structures.RGBDImages", "gradslam.geometry.projutils.inverse_intrinsics", "gradslam.geometry.geometryutils.create_meshgrid", "torch CPU kernels"]
    stubs = ["open3d (never reached)"]
    rule = ("one run = a seeded history of 4-24 operations (construct, replace images/intrinsics/poses, layout changes in and out "
            "of place, reads that warm the lazy maps, indexing, clone/detach/to, checkpoint+restart, rejected calls) over 2 frame "
            "batches with missing depth; after every operation all views and derived maps are compared with a float64 model on a "
            "deep copy; non-trivial = at least one restart or rejected call fired, distinct by operation sequence")
    assumptions = ["normals are compared only where the cross product is well conditioned at the run's precision",
                   "images at least 2x2 (the normal of a one-pixel-wide image is undefined)"]
    expected_probes = ("set-after-warm", "layout-change-after-warm", "missing-depth", "negative-depth", "depth-not-a-number", "other-device")

    def generate(self, rng, tier):
        n = rng.randint(4, 24) if tier == "quick" else rng.randint(4, 60)
        ops = [draw_new(rng, i) for i in range(self.nslots)]
        for _ in range(n):
            ops.append(draw_op(rng, self.nslots, self.allow, self.fault_rate))
            if self.fault_rate == 0 and rng.random() < 0.03:
                ops.append({"k": "away", "s": rng.randrange(self.nslots)})
        for op in ops:
            if op["k"] in ("new", "set") and rng.random() < 0.15:
                op["holes"] = True
        return {"dtype": "f32", "ops": ops}

    def start(self, dt):
        pool, models = {}, {}
        for i in range(self.nslots):
            m = make_model({"B": 1, "L": 1, "H": 2, "W": 2, "poses": True, "cf": False, "seed": i}, dt)
            models[i] = m
            pool[i] = make_real(m, dt)
        return pool, models

    def execute(self, plan, run):
        dt = DT[plan["dtype"]]
        pool, models = self.start(dt)
        warm = set()
        for n, op in enumerate(plan["ops"]):
            where = "step %d %s" % (n, describe(op))
            run.shape(op["k"], op.get("what"), op.get("how"), op.get("views"), op["s"])
            if op["k"] == "read":
                warm.add(op["s"])
            elif op["s"] in warm and op["k"] == "set":
                run.probe("set-after-warm")
            elif op["s"] in warm and op["k"].startswith("to_channels"):
                run.probe("layout-change-after-warm")
            models = self.one(op, pool, models, dt, run, where)
            run.event(n, op["k"], [m.shape for m in models.values()])
        for i, m in models.items():
            vs = VIEWS[:]
            rng_of(plan.get("_seed", 0), i).shuffle(vs)
            check_all(run, pool[i], m, dt, "end, frames %d" % i, vs)

    def one(self, op, pool, models, dt, run, where):
        if op["k"] == "read":
            for v in op["views"]:
                check_view(run, pool[op["s"]], models[op["s"]], v, dt, where)
            return models
        if op["k"] == "away":
            sent_away(run, pool[op["s"]], models[op["s"]], where)
            self.check_pool(run, pool, models, dt, where)
            return models
        if op["k"] == "bad":
            try:
                bad_call(op, models[op["s"]], dt)(pool[op["s"]])
            except Exception as e:
                run.event("rejected", type(e).__name__)
            else:
                raise Violation("accepted-invalid", "%s was accepted" % where)
            run.fault("rejected-call")
            self.check_pool(run, pool, models, dt, where)
            return models
        st = plan_step(op, models, dt)
        if st is None:
            return models
        self.run_step(op, st, pool, models, dt, run, where)
        if op["k"] == "restart":
            run.fault("restart-from-checkpoint")
        m = st.after[st.dst]
        if (m.depth == 0).any():
            run.probe("missing-depth")
        if (m.depth < 0).any():
            run.probe("negative-depth")
        if np.isnan(m.depth).any():
            run.probe("depth-not-a-number")
        self.check_pool(run, pool, st.after, dt, where)
        run.state(op["k"], [[x.shape, x.cf, x.poses is not None] for x in st.after.values() if isinstance(x, Frames)])
        return st.after

    def run_step(self, op, st, pool, models, dt, run, where):
        st.act(pool)

    def check_pool(self, run, pool, models, dt, where, kind="stale-or-wrong-map"):
        snap = copy.deepcopy(pool)
        for i, m in models.items():
            check_all(run, snap[i], m, dt, "%s, frames %d" % (where, i), kind=kind)


class FrameFaults(FrameHistories):
    """F02: a failed allocation or an interruption never leaves a wrong derived map behind."""

    id = "F02"
    level = "fault_enumeration"
    quick_runs = 2000
    thorough_runs = 200000
    allow = ("getitem", "restart", "detach")
    fault_rate = 0.65
    rule = ("as F01, but most operations and reads first run with their k-th tensor allocation failing, or are cut by a simulated "
            "interruption before a random gradslam line (reads and out-of-place operations only); after a failure every view must still "
            "equal the model before the operation, and the retry must give the model after it")
    expected_probes = ("failed-read", "failed-operation", "interrupted-read", "interrupted-copy")

    def generate(self, rng, tier):
        plan = FrameHistories.generate(self, rng, tier)
        ops = []
        for op in plan["ops"]:
            if op["k"] == "read":
                op.setdefault("fault", [round(rng.random(), 6)])
                if rng.random() < 0.4:
                    op["crash"] = round(rng.random(), 6)
            ops.append(op)
            if op["k"] in ("new", "set") and rng.random() < 0.5:
                # the first read after a change does all the work: cut it short
                vs = ["vertex_map", "global_vertex_map", "normal_map", "global_normal_map", "valid_depth_mask"]
                rng.shuffle(vs)
                cut = {"k": "read", "s": op["s"], "views": vs[: rng.choice([1, 1, 2])], "seed": rng.randrange(1 << 30)}
                if rng.random() < 0.6:
                    cut["crash"] = round(rng.random(), 6)
                else:
                    cut["fault"] = [round(rng.random(), 6)]
                ops.append(cut)
            elif op["k"] in ("to_channels_first", "to_channels_last", "clone", "detach", "to", "getitem") and rng.random() < 0.3:
                op["crash"] = round(rng.random(), 6)
        plan["ops"] = ops
        return plan

    def attempt(self, fn, u, pool, run):
        trial = copy.deepcopy(pool)
        with alloc_faults() as c:
            fn(trial)
        if c.n == 0:
            run.probe("no-allocation")
            return None
        f = alloc_faults([min(int(u * c.n), c.n - 1)])
        try:
            with f:
                fn(pool)
        except RuntimeError as e:
            if not is_injected_alloc(e):
                raise
            run.fault("failed-allocation")
            return True
        if f.fired:
            run.fault("failed-allocation")
            run.probe("fault-absorbed")
        return False

    def interrupt(self, fn, u, pool, run):
        trial = copy.deepcopy(pool)
        with CrashAt(None) as c:
            fn(trial)
        if not c.n:
            return False
        try:
            with CrashAt(min(int(u * c.n), c.n - 1)):
                fn(pool)
        except SimCrash:
            run.fault("interruption")
            run.shape("interrupt", u)
            return True
        return False

    def one(self, op, pool, models, dt, run, where):
        if op["k"] == "read":
            s = op["s"]
            for u in op.get("fault", []):
                def fn(p):
                    for v in op["views"]:
                        getattr(p[s], v) if v != "meta" else None

                r = self.attempt(fn, u, pool, run)
                run.shape("fault", r, u)
                if r:
                    run.probe("failed-read")
                    self.check_pool(run, pool, models, dt, where + " (allocation failed)", "wrong-after-failure")
            if "crash" in op:
                def fn2(p):
                    for v in op["views"]:
                        getattr(p[s], v) if v != "meta" else None

                if self.interrupt(fn2, op["crash"], pool, run):
                    run.probe("interrupted-read")
                    self.check_pool(run, pool, models, dt, where + " (interrupted)", "wrong-after-failure")
            for v in op["views"]:
                check_view(run, pool[s], models[s], v, dt, where)
            return models
        return FrameHistories.one(self, op, pool, models, dt, run, where)

    def run_step(self, op, st, pool, models, dt, run, where):
        done = False
        if st.out and "crash" in op and self.interrupt(st.act, op["crash"], pool, run):
            run.probe("interrupted-copy")
            self.check_pool(run, pool, models, dt, where + " (interrupted)", "wrong-after-failure")
        if op["k"] not in ("new", "restart"):
            for u in op.get("fault", []):
                r = self.attempt(st.act, u, pool, run)
                run.shape("fault", r, u)
                if r is None:
                    break
                if r is False:
                    done = True
                    break
                run.probe("failed-operation")
                self.check_pool(run, pool, models, dt, where + " (allocation failed)", "wrong-after-failure")
        if not done:
            st.act(pool)


class FrameConcurrentReaders(Property):
    """F03: threads reading derived maps of shared frames all see the right maps, whatever the schedule."""

    id = "F03"
    quick_runs = 15000
    thorough_runs = 1500000
    list_fields = ("prefix", "threads.0", "threads.1", "threads.2")
    real = FrameHistories.real
    stubs = ["open3d", "thread scheduling (replaced by the simulator's scheduler)"]
    rule = ("one run = shared frames (lazy maps cold or partly warm after a short history), then 2-3 threads each making 1-4 reads "
            "(derived maps, indexing, clone, layout copies) under a seeded random or PCT schedule that may preempt at any "
            "gradslam source line; non-trivial = at least one preemption inside gradslam; distinct by accesses and schedule taken")
    assumptions = ["switch points are gradslam source lines: races inside one torch kernel call are not explored"]
    expected_probes = ("preempted-inside-gradslam",)

    def generate(self, rng, tier):
        prefix = [draw_new(rng, 0)]
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            o = draw_op(rng, 1, ())
            if o["k"] in ("read", "set", "to_channels_first_", "to_channels_last_"):
                prefix.append(o)
        threads = {}
        for t in range(rng.choice([2, 2, 3])):
            acc = []
            for _ in range(rng.choice([1, 2, 2, 4])):
                if rng.random() < 0.75:
                    acc.append({"k": "view", "v": rng.choice(VIEWS[4:])})
                else:
                    acc.append({"k": rng.choice(["getitem", "clone", "to_channels_first", "to_channels_last", "detach"]), "s": 0,
                                "d": 1, "copy": True, "how": rng.choice(["b", "bl", "sl", "slsl"]), "seed": rng.randrange(1 << 30)})
            threads[str(t)] = acc
        return {"dtype": "f32", "prefix": prefix, "threads": threads, "sched": sched.draw(rng)}

    def execute(self, plan, run):
        dt = DT[plan["dtype"]]
        m0 = make_model({"B": 1, "L": 1, "H": 2, "W": 2, "poses": True, "cf": False, "seed": 5}, dt)
        pool, models = {0: make_real(m0, dt)}, {0: m0}
        for op in plan["prefix"]:
            if op["k"] == "read":
                for v in op["views"]:
                    check_view(run, pool[0], models[0], v, dt, "prefix")
                continue
            st = plan_step(dict(op, s=0), models, dt)
            if st is not None:
                st.act(pool)
                models = {0: st.after[0]}
        shared, model = pool[0], models[0]
        names = sorted(plan["threads"])
        run.shape(model.shape, model.cf, [[a.get("k"), a.get("v"), a.get("how")] for t in names for a in plan["threads"][t]])

        def body(t):
            accs = [(a, None if a["k"] == "view" else plan_step(dict(a, s=0, d=1), {0: model, 1: model}, dt)) for a in plan["threads"][t]]

            def go():
                out = []
                for a, st in accs:
                    if a["k"] == "view":
                        check_view(run, shared, model, a["v"], dt, "thread %s reading %s" % (t, a["v"]), "reader-saw-wrong-map")
                    elif st is not None:
                        p = {0: shared, 1: None}
                        st.act(p)
                        out.append((a, st, p[1]))
                return out

            return go

        res = sched.Scheduler(plan["sched"], run).go([body(t) for t in names])
        for t, (status, val) in zip(names, res):
            if status == "error":
                raise val
            for a, st, r in val:
                check_all(run, r, st.after[1], dt, "thread %s result of %s" % (t, a["k"]), kind="reader-saw-wrong-map")
        check_all(run, shared, model, dt, "after all readers", kind="reader-changed-the-frames")


PROPERTIES = [FrameHistories(), FrameFaults(), FrameConcurrentReaders()]
