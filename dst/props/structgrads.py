"""M05: gradients through histories of map and frame operations, with failed attempts and looks (with and without recording) in between."""
import contextlib

import numpy as np
import torch

from ..core import Property
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..core import SimCrash
from ..tools import dump_load, npr
from .gradient import double, weights
from .slam import G

ATTRS = ("points", "normals", "colors", "features")
MAPVIEWS = [a + f for a in ATTRS for f in ("_padded", "_list")] + ["nonpad_mask", "num_points_per_pointcloud"]
FRAMEVIEWS = ["vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask", "pixel_pos"]
FRAMEFIELDS = ("rgb_image", "depth_image", "intrinsics", "poses")
MAPOPS = ["offset_", "add", "sub", "scale_", "mul", "div", "rotate_", "rotate", "matmul", "transform_", "transform", "pinhole_projection_",
          "pinhole_projection", "set", "set", "set", "append", "append", "getitem", "clone", "to", "detach"]
FRAMEOPS = ["set", "set", "set", "set", "to_channels_first_", "to_channels_last_", "to_channels_first", "to_channels_last", "cut", "clone", "to", "detach",
            "cloud", "cloud"]


def rotation(rs, n):
    q = rs.normal(size=(n, 4))
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    w, x, y, z = q.T
    return np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                     2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], 1).reshape(n, 3, 3)


class Play(object):
    """One telling of the history of a plan: as written (recording gradients, with looks and failures), or plainly, at shifted inputs."""

    def __init__(self, plan, run=None, eps=0.0, frozen=None):
        self.plan, self.run, self.eps = plan, run, eps
        self.history = run is not None
        self.leaves, self.dirs, self.n = [], [], 0
        self.frozen = [] if frozen is None else frozen
        self.reused = 0
        self.maps, self.frames = {}, {}

    def leaf(self, array, mask=None):
        d = npr("direction", self.plan["seed"], self.n).uniform(-1, 1, array.shape)
        self.n += 1
        if mask is not None:
            d = d * mask
        if self.history:
            t = torch.tensor(array, requires_grad=True)
            self.leaves.append(t)
            self.dirs.append(torch.tensor(d))
            return t
        return torch.tensor(array + self.eps * d)

    # -- operations: each gives a function that can be tried again, or None ------------------
    def new_map(self, op):
        _, st = G()
        rs = npr("op", op["seed"])
        B = self.plan["B"]
        sizes = op["sizes"]
        cols = {}
        for a in self.plan["attrs"] if sizes else ():
            if op["padded"]:
                x = np.zeros((B, max(sizes), 2 if a == "features" else 3))
                m = np.zeros_like(x)
                for b, k in enumerate(sizes):
                    x[b, :k], m[b, :k] = self.values(rs, a, k), 1
                cols[a] = self.leaf(x, m)
            else:
                cols[a] = [self.leaf(self.values(rs, a, k)) for k in sizes]
        s = op["s"]

        def act():
            self.maps[s] = st.Pointclouds(**cols)

        return act

    def values(self, rs, a, k):
        if a == "features":
            return rs.uniform(0.2, 2, (k, 2))
        x = rs.uniform(-1, 1, (k, 3))
        if a == "points":
            x[:, 2] += 3
        return x

    def map_op(self, op):
        s, k = op["s"], op["k"]
        pc = self.maps.get(s)
        if pc is None:
            return None
        rs = npr("op", op["seed"])
        B, d = self.plan["B"], op["d"]
        if not pc.has_points and k not in ("append", "clone", "to", "detach", "offset_", "scale_"):
            return None

        def put(call):
            def act():
                r = call()
                self.maps[s if k[-1] == "_" else d] = r
            return act

        if k in ("offset_", "add", "sub", "scale_", "mul", "div"):
            shape = [(), (3,), (B, 1, 1), (B, 1, 3)][rs.randint(4)]
            t = self.leaf(rs.uniform(0.6, 1.4, shape) * (1 if k in ("offset_", "add", "scale_", "mul") else 0.9))
            return put({"offset_": lambda: pc.offset_(t), "add": lambda: pc + t, "sub": lambda: pc - t, "scale_": lambda: pc.scale_(t),
                        "mul": lambda: pc * t, "div": lambda: pc / t}[k])
        if k in ("rotate_", "rotate", "matmul", "transform_", "transform"):
            batch = bool(rs.randint(2))
            R = rotation(rs, B if batch else 1) + 0.0
            if "transform" in k:
                T = np.tile(np.eye(4), (len(R), 1, 1))
                T[:, :3, :3], T[:, :3, 3] = R, rs.uniform(-1, 1, (len(R), 3))
                mask = np.ones_like(T)
                mask[:, 3] = 0
                t = self.leaf(T if batch else T[0], mask if batch else mask[0])
            else:
                t = self.leaf(R if batch else R[0])
            pre = bool(rs.randint(2))
            return put({"rotate_": lambda: pc.rotate_(t, pre_multiplication=pre), "rotate": lambda: pc.rotate(t, pre_multiplication=pre), "matmul": lambda: pc @ t,
                        "transform_": lambda: pc.transform_(t, pre_multiplication=True), "transform": lambda: pc.transform(t, pre_multiplication=True)}[k])
        if k in ("pinhole_projection", "pinhole_projection_"):
            with torch.no_grad():
                z = torch.cat([p[:, 2] for p in pc.clone().points_list])
            if bool((z.abs() < 0.3).any()):
                return None
            K = np.tile(np.eye(4), (B, 1, 1))
            K[:, 0, 0], K[:, 1, 1], K[:, 0, 2], K[:, 1, 2] = rs.uniform(1, 3, (4, B))
            mask = np.zeros_like(K)
            mask[:, 0, 0] = mask[:, 1, 1] = mask[:, 0, 2] = mask[:, 1, 2] = 1
            t = self.leaf(K, mask)
            return put((lambda: pc.pinhole_projection_(t)) if k[-1] == "_" else (lambda: pc.pinhole_projection(t)))
        if k == "set":
            have = [a for a in ATTRS if getattr(pc, "has_" + a)]
            a = have[rs.randint(len(have))]
            name = a + ("_padded" if rs.randint(2) else "_list")
            f = self.leaf(rs.uniform(0.7, 1.3, ()))
            old = getattr(pc, name)
            if name.endswith("list"):
                g = [self.leaf(rs.uniform(-0.1, 0.1, tuple(x.shape))) for x in old]
                v = [x * f + y for x, y in zip(old, g)]
            else:
                v = old * f

            def act():
                setattr(pc, name, v)

            return act
        if k == "append":
            other = self.maps.get(op["t"])
            if other is None or other is pc or not other.has_points or pc.has_points and [getattr(other, "has_" + a) for a in ATTRS] != [getattr(pc, "has_" + a) for a in ATTRS]:
                return None
            if sum(len(x) for x in pc.points_list or []) + sum(len(x) for x in other.points_list) > 150:
                return None

            if self.history and not pc.has_points:
                self.run.probe("append-onto-nothing")

            def act():
                pc.append_points(other)

            return act
        if k == "getitem":
            order = [int(i) for i in rs.permutation(B)]
            return put(lambda: pc[order])
        if k == "clone":
            return put(lambda: pc.clone())
        if k == "to":
            return put(lambda: pc.to(torch.device("cpu"), copy=True))
        if k == "detach":
            return put(lambda: self.detached(pc))
        raise AssertionError(k)

    def detached(self, o):
        if self.history:
            r = o.detach()
            self.frozen.append(dump_load(r))
            return r
        self.reused += 1
        return dump_load(self.frozen[self.reused - 1])

    def new_frames(self, op):
        _, st = G()
        rs = npr("op", op["seed"])
        B, L, H, W = self.plan["B"], op["L"], op["H"], op["W"]
        rgb = rs.uniform(0, 1, (B, L, H, W, 3))
        gone = np.zeros((B, L, H, W, 1))  # never both neighbours a normal is made of: it would point anywhere
        gone[:, :, ::2, ::2] = rs.uniform(size=gone[:, :, ::2, ::2].shape) < op["missing"]
        depth = rs.uniform(1, 3, gone.shape) * (1 - gone)
        K = np.tile(np.eye(4), (B, 1, 1, 1))
        K[:, 0, 0, 0], K[:, 0, 1, 1], K[:, 0, 0, 2], K[:, 0, 1, 2] = rs.uniform(2, 5, B), rs.uniform(2, 5, B), rs.uniform(0, W, B), rs.uniform(0, H, B)
        mask = np.zeros_like(K)
        mask[:, 0, 0, 0] = mask[:, 0, 1, 1] = mask[:, 0, 0, 2] = mask[:, 0, 1, 2] = 1
        if op["cf"]:
            rgb, depth = [np.ascontiguousarray(np.moveaxis(x, -1, 2)) for x in (rgb, depth)]
        args = [self.leaf(rgb), self.leaf(depth, depth > 0), self.leaf(K, mask)]
        poses = self.new_poses(rs, B, L) if op["poses"] else None
        s = op["s"]

        def act():
            self.frames[s] = st.RGBDImages(args[0], args[1], args[2], poses, channels_first=op["cf"])

        return act

    def new_poses(self, rs, B, L):
        T = np.tile(np.eye(4), (B * L, 1, 1))
        T[:, :3, :3], T[:, :3, 3] = rotation(rs, B * L), rs.uniform(-1, 1, (B * L, 3))
        mask = np.ones_like(T)
        mask[:, 3] = 0
        return self.leaf(T.reshape(B, L, 4, 4), mask.reshape(B, L, 4, 4))

    def frame_op(self, op):
        s, k, d = op["s"], op["k"], op["d"]
        f = self.frames.get(s)
        if f is None:
            return None
        rs = npr("op", op["seed"])
        B, L = f.shape[:2]

        def put(call):
            def act():
                self.frames[d] = call()
            return act

        if k == "set":
            name = FRAMEFIELDS[rs.randint(4)]
            old = getattr(f, name)
            if name == "poses" and (old is None or rs.randint(2)):
                v = self.new_poses(rs, B, L)
            elif name == "intrinsics":
                t = self.leaf(rs.uniform(0.8, 1.2, ()))
                m = torch.zeros(4, 4)
                m[0, 0] = m[0, 2] = 1
                v = old + old * m * (t - 1)
            elif name == "poses":
                t = self.leaf(rs.uniform(-0.5, 0.5, (1, 1, 3)))
                v = old + torch.cat([torch.zeros(1, 1, 4, 3), torch.cat([t, torch.zeros(1, 1, 1)], -1)[..., None]], -1)
            else:
                v = old * self.leaf(rs.uniform(0.8, 1.2, ()))

            def act():
                setattr(f, name, v)

            return act
        if k in ("to_channels_first_", "to_channels_last_"):
            return lambda: getattr(f, k)()
        if k in ("to_channels_first", "to_channels_last"):
            return put(lambda: getattr(f, k)(copy=True))
        if k == "cut":
            l = int(rs.randint(L))
            e = int(rs.randint(l + 1, L + 1))
            return put((lambda: f[:, l]) if rs.randint(2) else (lambda: f[:, l:e]))
        if k == "clone":
            return put(lambda: f.clone())
        if k == "to":
            return put(lambda: f.to(torch.device("cpu"), copy=True))
        if k == "detach":
            return put(lambda: self.detached(f))
        if k == "cloud":
            from gradslam.structures.utils import pointclouds_from_rgbdimages

            if L != 1 or not bool((f.depth_image > 0).flatten(1).any(1).all()):
                return None
            glob, filt = bool(rs.randint(2)), bool(rs.randint(2))

            def act():
                self.maps[op["m"]] = pointclouds_from_rgbdimages(f, global_coordinates=glob, filter_missing_depths=filt)

            return act
        raise AssertionError(k)

    # -- telling it -----------------------------------------------------------------------
    def look(self, op):
        if not self.history:
            return
        o = (self.frames if op["of"] == "frames" else self.maps).get(op["s"])
        if o is None:
            return
        self.run.probe("looked-without-gradients" if op["blind"] else "looked")
        self.run.nontrivial = True
        if op["cut"] is not None:
            self.interrupted(o, op)
        with torch.no_grad() if op["blind"] else contextlib.nullcontext():
            for v in op["v"]:
                getattr(o, v)

    def interrupted(self, o, op):
        with torch.no_grad() if op["blind"] else contextlib.nullcontext():
            try:
                with CrashAt(op["cut"]) as c:
                    for v in op["v"]:
                        getattr(o, v)
            except SimCrash:
                self.run.fault("interruption")
                self.run.probe("interrupted-look")

    def step(self, op):
        if op["k"] == "view":
            return self.look(op)
        act = (self.new_map if op["k"] == "new" else self.map_op)(op) if op["of"] == "maps" else (self.new_frames if op["k"] == "new" else self.frame_op)(op)
        if act is None:
            return
        if not self.history:
            return act()
        self.run.probe(op["of"] + "-" + op["k"])
        for at in op["fail"]:
            n = len(self.frozen)
            try:
                with alloc_faults([at]):
                    act()
                return
            except RuntimeError as e:
                if not is_injected_alloc(e):
                    raise
                del self.frozen[n:]
                self.run.fault("failed-allocation")
                self.run.probe("failed-operation")
                self.run.nontrivial = True
        act()

    def go(self):
        for op in self.plan["ops"]:
            self.step(op)
        return self.total()

    def total(self):
        """A fixed random combination of everything every map and frame batch shows."""
        parts, shown = [], []
        for s in sorted(self.maps):
            pc = self.maps[s]
            for a in ATTRS:
                lst, pad = getattr(pc, a + "_list"), getattr(pc, a + "_padded")
                if lst:
                    parts += [(weights(x.shape, s, a, i) * x).sum() for i, x in enumerate(lst)]
                if pad is not None:
                    parts.append((weights(pad.shape, s, a, "p") * pad).sum())
        for s in sorted(self.frames):
            f = self.frames[s]
            for name in FRAMEFIELDS + tuple(FRAMEVIEWS[:4]):
                x = getattr(f, name)
                if x is not None:
                    parts.append((weights(x.shape, s, name) * x).sum())
        return sum(parts)


class StructureGradients(Property):
    id = "M05"
    quick_runs = 6000
    thorough_runs = 600000
    list_fields = ("ops",)
    real = ["gradslam.structures.Pointclouds", "gradslam.structures.RGBDImages", "gradslam.structures.utils", "gradslam.geometry", "torch.autograd"]
    stubs = ["open3d"]
    rule = ("one run = a float64 history of operations on 3 maps and 2 frame batches (building, moving, projecting, assigning, appending, selecting, copying, "
            "cutting gradients, changing layout, making maps of frames) in which inputs and operands carry gradients, with looks at any representation or "
            "derived map (recording or not, interrupted or not) and failed allocations in between; the derivative of a random combination of everything shown at the end along a random "
            "direction of all inputs must be the difference quotient of the same operations without looks and failures; distinct by operations and faults")
    assumptions = ["judged where the difference quotients of two step sizes agree", "rotations and poses are differentiated as plain matrices"]
    expected_probes = ("append-onto-nothing", "looked", "looked-without-gradients", "interrupted-look", "failed-operation", "compared") + tuple(
        "maps-" + k for k in sorted(set(MAPOPS))) + tuple("frames-" + k for k in sorted(set(FRAMEOPS)))

    def generate(self, rng, tier):
        B = rng.choice([1, 2, 2, 3])
        attrs = ["points"] + [a for a in ATTRS[1:] if rng.random() < 0.6]
        cloudlike = rng.random() < 0.3
        if cloudlike:  # what maps of frames carry
            attrs = ["points", "normals", "colors"]
        seed = lambda: rng.randrange(1 << 30)
        fail = lambda: [rng.choice([0, 1, 2, 3, rng.randrange(60)]) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.2 else []

        def new_map(s):
            top = rng.choice([1, 3, 5])
            padded = rng.random() < 0.3
            sizes = [] if s and rng.random() < 0.15 else [rng.randint(1, top)] * B if padded else [rng.randint(1, top) for _ in range(B)]
            return {"of": "maps", "k": "new", "s": s, "sizes": sizes, "padded": padded, "seed": seed(), "fail": fail()}

        def new_frames(s):
            return {"of": "frames", "k": "new", "s": s, "L": rng.choice([1, 1, 2, 3]), "H": rng.randint(2, 4), "W": rng.randint(2, 4), "cf": rng.random() < 0.4,
                    "poses": rng.random() < 0.7, "missing": rng.choice([0, 0.2, 0.5]), "seed": seed(), "fail": fail()}

        ops = [new_map(0), new_map(1), new_frames(0)]
        if not ops[1]["sizes"] and rng.random() < 0.7:
            ops.append({"of": "maps", "k": "append", "s": 1, "d": 1, "t": 0, "m": 0, "seed": seed(), "fail": fail()})
        for _ in range(rng.randint(3, 12) if tier == "quick" else rng.randint(3, 40)):
            of = "maps" if rng.random() < 0.6 else "frames"
            n = 3 if of == "maps" else 2
            s, d = rng.randrange(n), rng.randrange(n)
            if rng.random() < 0.35:
                views = MAPVIEWS if of == "maps" else FRAMEVIEWS
                ops.append({"of": of, "k": "view", "s": s, "v": rng.sample(views, rng.randint(1, 3)), "blind": rng.random() < 0.6,
                            "cut": rng.randrange(40) if rng.random() < 0.2 else None})
            elif rng.random() < 0.08:
                ops.append((new_map if of == "maps" else new_frames)(s))
            else:
                ops.append({"of": of, "k": rng.choice(MAPOPS if of == "maps" else FRAMEOPS), "s": s, "d": d, "t": rng.randrange(3), "m": rng.randrange(3),
                            "seed": seed(), "fail": fail()})
        return {"B": B, "attrs": attrs, "ops": ops, "seed": seed()}

    def execute(self, plan, run):
        run.shape(plan["B"], plan["attrs"], [(o["of"], o["k"], o["s"], o.get("d"), o.get("v"), o.get("blind"), o.get("fail")) for o in plan["ops"]])
        with double():
            h = Play(plan, run)
            total = h.go()
            run.event(round(float(total.detach()), 6), len(h.leaves))
            got = 0.0
            if torch.is_tensor(total) and total.requires_grad:
                for g, d in zip(torch.autograd.grad(total, h.leaves, allow_unused=True), h.dirs):
                    if g is not None:
                        run.check(bool(torch.isfinite(g).all()), "gradient-not-finite", "gradient with respect to one of the inputs")
                        got += float((g * d).sum())
            q = []
            with torch.no_grad():
                for eps in (1e-6, 5e-7):
                    v = [float(Play(plan, None, sign * eps, h.frozen).go()) for sign in (1, -1)]
                    q.append((v[0] - v[1]) / (2 * eps))
                plain = float(Play(plan, None, 0.0, h.frozen).go())
        size = abs(float(total.detach())) + 1.0
        run.check(abs(plain - float(total.detach())) <= 1e-9 * size, "wrong-value",
                  "the maps and frames show %.12g, but %.12g without looks and failures" % (float(total.detach()), plain))
        slack = 3 * abs(q[0] - q[1])
        if not slack <= 1e-3 * (abs(q[1]) + 1):
            run.count("inconclusive")
            return
        run.probe("compared")
        run.check(abs(got - q[1]) <= slack + 1e-6 * (abs(q[1]) + size), "wrong-gradient",
                  "%.9g, but what maps and frames show changes by %.9g (+- %.2g)" % (got, q[1], slack))


PROPERTIES = [StructureGradients()]
