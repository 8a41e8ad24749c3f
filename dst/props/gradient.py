"""S10: gradients of whole mapping sessions, through sensor faults, failed steps, looks at the map and cuts of the graph."""
import contextlib

import numpy as np
import torch

from .. import scene
from ..core import Discard, SimCrash, Violation
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..tools import dump_load, npr
from .motion import pinned
from .slam import G, SlamProperty, draw_cfg, fully, make_slam, note_scene, refusable

NAMES = ("rgb", "depth", "intrinsics", "poses")
MAPVIEWS = ["points_padded", "normals_padded", "colors_padded", "features_padded", "points_list"]
FRAMEVIEWS = ["vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask"]


class Kernel(object):
    """The nearest-neighbour kernel of chamferdist only takes float32; in float64 a brute-force search stands in for it."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def knn_points_idx(self, p1, p2, lengths1, lengths2, K, version):
        if p1.dtype == torch.float32 or K != 1:
            return self._real.knn_points_idx(p1, p2, lengths1, lengths2, K, version)
        d = ((p1.detach()[:, :, None] - p2.detach()[:, None]) ** 2).sum(-1)
        m, i = d.min(-1)
        return i[..., None], m[..., None]


@contextlib.contextmanager
def double():
    from chamferdist import chamfer

    old, real = torch.get_default_dtype(), chamfer._C
    torch.set_default_dtype(torch.float64)
    chamfer._C = Kernel(real)
    try:
        yield
    finally:
        chamfer._C = real
        torch.set_default_dtype(old)


def weights(shape, *key):
    return torch.tensor(npr("w", *key).uniform(0.2, 1.0, tuple(shape)))


def value(pc, poses, B):
    """One number per batch element: a fixed random combination of everything the session made of it."""
    out = []
    for b in range(B):
        s = 0.0
        for name, unit in (("points", 1.0), ("normals", 1.0), ("colors", 0.01), ("features", 1.0)):
            lst = getattr(pc, name + "_list")
            if lst:
                s = s + unit * (weights(lst[b].shape, name, b) * lst[b]).sum()
        for i, p in enumerate(poses):
            s = s + (weights(p[b].shape, "pose", b, i) * p[b]).sum()
        out.append(s)
    return out, [len(x) for x in (pc.points_list or [])]


def bare(state):
    """What is left of a session when its graph is cut."""
    pc, prev = state
    return pc.detach(), None if prev is None else prev.detach()


def copied(state):
    return dump_load(state)


class Gradients(SlamProperty):
    id = "S10"
    quick_runs = 2500
    thorough_runs = 250000
    list_fields = ("cuts",)
    rule = ("one run = a float64 session, streamed step by step with failing and interrupted attempts, looks at map and frames (with and without "
            "gradient recording), in place or not, cut from its past at some frames; the gradient of a random combination of map and poses with respect "
            "to images, intrinsics and poses must be the difference quotient of the same session run in one go, and zero across batch elements; "
            "distinct by configuration, faults and events")
    expected_probes = ("odom-gt", "odom-icp", "odom-gradicp", "whole-session", "streamed", "cut", "cut-by-restart", "failed-step", "interrupted-step",
                       "looked", "looked-without-gradients") + tuple("compared-" + n for n in NAMES)
    stubs = ["camera and scene (simulated)", "open3d", "chamferdist nearest neighbours (brute force in float64; the kernel only takes float32)"]
    assumptions = ["judged where the difference quotients of two step sizes agree, and only if the disagreement persists at nearby inputs: steps at which a "
                   "point changes partner, or the solver accepts another step, have no derivative",
                   "depth is never exactly repeated: at a residual of exactly zero the undamped solver rejects its step and passes no gradient"]

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("gt", "icp", "gradicp"))
        sc = scene.draw(rng, B=rng.choice([1, 1, 2]), L=rng.randint(1, 3 if tier == "quick" else 6), rates=0.3, small=True,
                        first_ok=cfg["odom"] != "gt" or rng.random() < 0.7)
        L = sc["L"]
        look = lambda: {"map": rng.sample(MAPVIEWS, rng.randint(0, 2)), "frame": rng.sample(FRAMEVIEWS, rng.randint(0, 2)), "blind": rng.random() < 0.5}
        steps = [{"inplace": rng.random() < 0.5, "tries": [[rng.choice(["alloc", "crash"]), round(rng.random(), 6)] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                  "look": look() if rng.random() < 0.5 else None} for _ in range(L)]
        cuts = [{"at": rng.randrange(1, L), "restart": rng.random() < 0.5}] if L > 1 and rng.random() < 0.35 else []
        return {"cfg": cfg, "scene": sc, "whole": rng.random() < 0.2, "steps": steps, "cuts": cuts, "seed": rng.randrange(1 << 30)}

    def arrays(self, plan):
        spec = plan["scene"]
        out = list(scene.build(spec))
        rs = npr("dither", plan["seed"])
        out[1] = out[1] * (1 + 2e-3 * rs.uniform(-1, 1, out[1].shape))
        return out

    # -- the session ------------------------------------------------------
    def attempt(self, cfg, how, u, args, run):
        """An attempt at a step that fails; its inputs stay as they were."""
        cut = bare((args[0], args[2]))
        probe = (cut[0], args[1].detach(), cut[1])
        slam = make_slam(cfg)
        try:
            if how == "alloc":
                with alloc_faults() as c:
                    slam.step(*probe, inplace=False)
                with alloc_faults([min(int(u * c.n), max(c.n - 1, 0))]):
                    make_slam(cfg).step(*args, inplace=False)
            else:
                with CrashAt(None) as c:
                    slam.step(*probe, inplace=False)
                with CrashAt(min(int(u * c.n), max(c.n - 1, 0))):
                    make_slam(cfg).step(*args, inplace=False)
        except SimCrash:
            run.probe("interrupted-step")
            run.fault("crash-in-step")
        except RuntimeError as e:
            if not is_injected_alloc(e):
                raise
            run.probe("failed-step")
            run.fault("allocation-failure")

    def look(self, obj, views, blind, run):
        if not views:
            return
        run.probe("looked-without-gradients" if blind else "looked")
        with (torch.no_grad() if blind else contextlib.nullcontext()):
            for v in views:
                getattr(obj, v)

    def streamed(self, plan, tensors, run):
        """The history of the plan. Returns the values, the sizes, and the state at the last cut."""
        _, st = G()
        cfg, B, L = plan["cfg"], plan["scene"]["B"], plan["scene"]["L"]
        f = st.RGBDImages(*tensors)
        slam = make_slam(cfg)
        pc, prev, poses, base = st.Pointclouds(), None, [], None
        for s in range(L):
            for c in plan["cuts"]:
                if c["at"] == s:
                    pc, prev = bare((pc, prev))
                    base = (s, copied((pc, prev)))
                    if c["restart"]:
                        slam, (pc, prev) = make_slam(cfg), copied((pc, prev))
                        run.fault("restart-from-checkpoint")
                    run.probe("cut-by-restart" if c["restart"] else "cut")
                    run.nontrivial = True
                    poses = []
            e = plan["steps"][s]
            live = f[:, s]
            if e["look"]:
                self.look(live, e["look"]["frame"], e["look"]["blind"], run)
                if pc.has_points:
                    self.look(pc, e["look"]["map"], e["look"]["blind"], run)
                run.nontrivial = True
            for how, u in e["tries"]:
                self.attempt(cfg, how, u, (pc, live, prev), run)
            pc, q = slam.step(pc, live, prev, inplace=e["inplace"])
            live.poses = q
            prev = live if cfg["odom"] != "gt" else None
            poses.append(q[:, 0])
        return value(pc, poses, B) + (base,)

    def plain(self, plan, tensors, base, live=False):
        """The same session run in one go, from the last cut on."""
        _, st = G()
        cfg, B, L = plan["cfg"], plan["scene"]["B"], plan["scene"]["L"]
        f = st.RGBDImages(*tensors)
        slam = make_slam(cfg)
        if base is None:
            pc, p = slam(f)
            return value(pc, [p[:, s] for s in range(L)], B)
        at, (pc, prev) = base[0], copied(base[1])
        poses = []
        for s in range(at, L):
            live = f[:, s]
            pc, q = slam.step(pc, live, prev, inplace=True)
            live.poses = q
            prev = live if cfg["odom"] != "gt" else None
            poses.append(q[:, 0])
        return value(pc, poses, B)

    def direction(self, k, arrays, seed):
        rs = npr("direction", seed, NAMES[k])
        a = arrays[k]
        d = rs.uniform(-1, 1, a.shape)
        if NAMES[k] == "intrinsics":
            m = np.zeros((4, 4))
            m[0, 0] = m[1, 1] = m[0, 2] = m[1, 2] = 1
            return d * m
        if NAMES[k] == "poses":
            d[..., 3, :] = 0
            return 0.3 * d
        return d * (a != 0)

    def execute(self, plan, run):
        cfg, spec = plan["cfg"], plan["scene"]
        note_scene(run, spec)
        run.shape(cfg, plan["whole"], plan["steps"], plan["cuts"])
        run.probe("odom-" + cfg["odom"])
        arrays = self.arrays(plan)
        if cfg["odom"] != "gt" and not pinned(arrays, 0.05, cfg["dsratio"]):
            raise Discard("a frame leaves the camera free to slide")
        with double():
            self.compare(plan, arrays, run)

    def judge(self, plan, arrays, run, seed):
        """Yields (name, gradient along a direction, difference quotient, uncertainty)."""
        B = plan["scene"]["B"]
        xs = [torch.tensor(a, dtype=torch.float64, requires_grad=True) for a in arrays]
        if plan["whole"]:
            run.probe("whole-session")
            (vals, sizes), base = self.plain(plan, xs, None), None
        else:
            run.probe("streamed")
            vals, sizes, base = self.streamed(plan, xs, run)
        total = sum(vals)
        run.event([round(float(v.detach()), 5) for v in vals if torch.is_tensor(v)])
        grads = [None] * 4
        if torch.is_tensor(total) and total.requires_grad:
            grads = list(torch.autograd.grad(total, xs, allow_unused=True, retain_graph=True))
            for b in range(B):
                if B > 1 and vals[b].requires_grad:
                    for n, g in zip(NAMES, torch.autograd.grad(vals[b], xs, allow_unused=True, retain_graph=True)):
                        if g is not None:
                            o = g[[i for i in range(B) if i != b]]
                            run.check(not o.any(), "leaks-between-batch-elements", "gradient of element %d with respect to the %s of others: %s" % (b, n, o.abs().max()))
        for n, g in zip(NAMES, grads):
            run.check(g is None or bool(torch.isfinite(g).all()), "gradient-not-finite", "gradient with respect to %s, %s" % (n, plan["cfg"]))
        for k, n in enumerate(NAMES):
            d = self.direction(k, arrays, seed)
            g = 0.0 if grads[k] is None else float((grads[k] * torch.tensor(d)).sum())
            q = []
            for eps in (1e-6, 5e-7):
                v = []
                for sign in (1, -1):
                    x = [torch.tensor(a + sign * eps * d) if i == k else torch.tensor(a) for i, a in enumerate(arrays)]
                    with torch.no_grad():
                        r, err = fully(lambda: self.plain(plan, x, base))
                    v.append(None if err is not None or r[1] != sizes else float(sum(r[0])))
                q.append(None if None in v else (v[0] - v[1]) / (2 * eps))
            if None in q:
                continue
            slack = 3 * abs(q[0] - q[1])
            yield n, g, q[1], slack, 1e-5 * (abs(q[1]) + 1.0)

    def compare(self, plan, arrays, run):
        cfg, spec = plan["cfg"], plan["scene"]
        try:
            first = list(self.judge(plan, arrays, run, plan["seed"]))
        except RuntimeError as e:
            if refusable(cfg, spec, e):
                raise Discard("the session is refused: %s" % type(e).__name__)
            raise
        run.state(cfg["cls"], cfg["odom"], [n for n, g, q, slack, tol in first if slack <= 1e-2 * (abs(q) + 1)])
        for n, g, q, slack, tol in first:
            if slack > 1e-2 * (abs(q) + 1):
                run.count("inconclusive")
                continue
            run.probe("compared-" + n)
            run.stats["checks"] += 1
            if abs(g - q) <= slack + tol:
                continue
            # a kink or a tie, or a wrong gradient? ask again nearby
            wrong = 0
            for i in range(6):
                rs = npr("nearby", plan["seed"], i)
                near = [a * (1 + 1e-4 * rs.uniform(-1, 1, a.shape)) if k < 2 else a for k, a in enumerate(arrays)]
                try:
                    again = {x[0]: x for x in self.judge(plan, near, run, (plan["seed"], i))}.get(n)
                except RuntimeError:
                    continue
                if again is None or again[3] > 1e-2 * (abs(again[2]) + 1):
                    continue
                if abs(again[1] - again[2]) <= again[3] + again[4]:
                    raise Discard("no derivative at this point")
                wrong += 1
            if wrong < 3:
                raise Discard("no derivative at this point")
            raise Violation("wrong-gradient", "with respect to %s: %.9g, but the session changes by %.9g (+- %.2g); %s" % (n, g, q, slack + tol, cfg))


PROPERTIES = [Gradients()]
