"""M01-M04: the map container (Pointclouds) under histories, faults, schedules and aliasing."""
import copy

import numpy as np
import torch

from ..core import Discard, Property, SimCrash, Violation
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..models import ATTRS, Cloud
from .. import sched
from ..tools import close, diff_text, dump_load, npr, rigid, rng_of, rotation, to_np

DT = {"f32": torch.float32, "f64": torch.float64}
VIEWS = ["points_list", "normals_list", "colors_list", "features_list", "points_padded", "normals_padded",
         "colors_padded", "features_padded", "nonpad_mask", "sizes", "has", "len", "num_features"]


def PC():
    from gradslam.structures import Pointclouds

    return Pointclouds


# ------------------------------------------------------------------ construction


def draw_new(rng, B, slot):
    if rng.random() < 0.06:
        return {"k": "new", "s": slot, "form": "empty"}
    form = rng.choice(["list", "list", "padded"])
    b = B if rng.random() < 0.95 else rng.choice([1, 2, 3])
    n = rng.choice([1, 2, 3, 5])
    sizes = [n] * b if form == "padded" or rng.random() < 0.25 else [rng.choice([0, 1, 2, 3, 4, 6]) for _ in range(b)]
    return {"k": "new", "s": slot, "form": form, "sizes": sizes, "attrs": rng.choice([7, 7, 7, 0, 1, 2, 3, 5]),
            "C": rng.choice([1, 1, 2, 4]), "seed": rng.randrange(1 << 30)}


def rows(rs, n, c, kind):
    if kind == "points":
        x = rs.uniform(-2, 2, size=(n, 3))
        x[:, 2] += np.where(x[:, 2] >= 0, 1.0, -1.0)
        return x
    if kind == "normals":
        x = rs.normal(size=(n, 3))
        return x / np.maximum(np.linalg.norm(x, axis=1, keepdims=True), 1e-6)
    if kind == "colors":
        return rs.uniform(0, 255, size=(n, 3))
    return rs.uniform(0.1, 3, size=(n, c))


def make_model(op):
    if op["form"] == "empty":
        return Cloud()
    rs = npr("cloud", op["seed"])
    m = Cloud(points=[rows(rs, n, 3, "points") for n in op["sizes"]])
    for i, k in enumerate(ATTRS):
        if op["attrs"] >> i & 1:
            setattr(m, k, [rows(rs, n, op["C"], k) for n in op["sizes"]])
    return m


def T(x, dt):
    return torch.tensor(np.ascontiguousarray(x), dtype=dt)


def make_real(op, model, dt):
    if op["form"] == "empty":
        return PC()()
    args = {}
    for k in ("points",) + ATTRS:
        v = getattr(model, k)
        if v is None:
            args[k] = None
        elif op["form"] == "list":
            args[k] = [T(x, dt) for x in v]
        else:
            args[k] = T(np.stack(v), dt)
    return PC()(**args)


def roundtrip(m, dt):
    """The model holds the values the code was given: round once to the run's precision."""
    for k in ("points",) + ATTRS:
        v = getattr(m, k)
        if v is not None:
            setattr(m, k, [np.asarray(T(x, dt).numpy(), dtype=np.float64) for x in v])
    return m


# ------------------------------------------------------------------ observation


def tol_of(m, dt, ops=1):
    eps = 2e-5 if dt == torch.float32 else 1e-9
    return eps * max(1.0, m.maxabs())


def check_view(run, real, m, name, dt, where, kind="incoherent-view"):
    run.stats["checks"] += 1
    tol = tol_of(m, dt)
    got = None
    if name == "has":
        got = (bool(real.has_points), bool(real.has_normals), bool(real.has_colors), bool(real.has_features))
        want = (not m.empty,) + tuple(getattr(m, k) is not None for k in ATTRS)
        if got != want:
            raise Violation(kind, "%s: has_points/normals/colors/features %s, expected %s" % (where, got, want))
        return
    if name == "len":
        if len(real) != m.B:
            raise Violation(kind, "%s: len %d, expected %d" % (where, len(real), m.B))
        return
    if name == "num_features":
        if int(real.num_features) != m.C:
            raise Violation(kind, "%s: num_features %s, expected %d" % (where, real.num_features, m.C))
        return
    if name == "sizes":
        if m.empty:
            return
        got = [int(x) for x in real.num_points_per_pointcloud]
        if got != m.sizes:
            raise Violation(kind, "%s: num_points_per_pointcloud %s, expected %s" % (where, got, m.sizes))
        return
    if name == "nonpad_mask":
        got = real.nonpad_mask
        if m.empty:
            if got is not None and got.numel():
                raise Violation(kind, "%s: empty map has a padding mask" % where)
            return
        want = m.mask()
        if got is None or tuple(got.shape) != want.shape or not np.array_equal(to_np(got), want):
            raise Violation(kind, "%s: nonpad_mask %s, expected %s" % (
                where, None if got is None else to_np(got).astype(int).tolist(), want.astype(int).tolist()))
        return
    attr, form = name.rsplit("_", 1)
    want = getattr(m, attr)
    got = getattr(real, name)
    if want is None:
        if got is not None:
            raise Violation(kind, "%s: %s should be absent" % (where, name))
        return
    if got is None:
        raise Violation(kind, "%s: %s is missing" % (where, name))
    if form == "list":
        if len(got) != len(want):
            raise Violation(kind, "%s: %s has %d elements, expected %d" % (where, name, len(got), len(want)))
        for b, (x, y) in enumerate(zip(got, want)):
            if not close(to_np(x), y, tol):
                raise Violation(kind, where + ": " + diff_text("%s[%d]" % (name, b), to_np(x), y))
    else:
        w = m.padded(attr)
        if not close(to_np(got), w, tol):
            raise Violation(kind, where + ": " + diff_text(name, to_np(got), w))


def check_all(run, real, m, dt, where, order=None, kind="incoherent-view"):
    for v in order or VIEWS:
        check_view(run, real, m, v, dt, where, kind)


def sent_away(run, real, m, where):
    """A copy on another device (torch's data-less one is the only other here): everything the map has is there, on that device."""
    r = real.to(torch.device("meta"))
    run.probe("other-device")
    bad = None
    if r is real or r.device.type != "meta":
        bad = "is on %s" % r.device
    elif (bool(r.has_points),) + tuple(bool(getattr(r, "has_" + a)) for a in ATTRS) != (not m.empty,) + tuple(getattr(m, a) is not None for a in ATTRS):
        bad = "has other attributes"
    else:
        for a in ("points",) + ATTRS:
            want = getattr(m, a)
            if want is None:
                continue
            seen = 0
            for form in ("list", "padded"):
                try:
                    v = getattr(r, a + "_" + form)
                except NotImplementedError:
                    continue  # needs values, which that device does not keep
                seen += 1
                shapes = [tuple(x.shape) for x in v] if form == "list" else tuple(v.shape)
                if shapes != ([x.shape for x in want] if form == "list" else m.padded(a).shape):
                    bad = "%s_%s has shape %s" % (a, form, shapes)
                if any(x.device.type != "meta" for x in v):
                    bad = "%s_%s is on another device" % (a, form)
            bad = bad or (None if seen else "%s cannot be read" % a)
    run.check(bad is None, "incoherent-view", lambda: "%s: the copy on another device %s" % (where, bad))


def snapshot(pool):
    """Generic deep copy: looking at it does not warm any cache of the original."""
    return copy.deepcopy(pool)


# ------------------------------------------------------------------ operations

INPLACE = ["offset_", "scale_", "rotate_", "transform_", "pinhole_projection_"]
OUT = ["add", "sub", "mul", "div", "matmul", "rotate", "transform", "pinhole_projection", "clone", "to"]


def draw_op(rng, B, nslots, allow, fault_rate=0.0):
    s = rng.randrange(nslots)
    r = rng.random()
    if r < 0.10:
        op = draw_new(rng, B, s)
    elif r < 0.30:
        op = {"k": rng.choice(INPLACE), "s": s}
    elif r < 0.44:
        op = {"k": rng.choice(OUT), "s": s, "d": rng.randrange(nslots)}
    elif r < 0.62:
        op = {"k": "append", "s": s, "o": rng.randrange(nslots), "fresh": rng.random() < 0.6}
    elif r < 0.78:
        op = {"k": "set", "s": s, "attr": rng.choice(["points", "normals", "colors", "features"]),
              "form": rng.choice(["list", "padded"]), "C": rng.choice([0, 0, 1, 3])}
    elif r < 0.88:
        vs = VIEWS[:]
        rng.shuffle(vs)
        op = {"k": "read", "s": s, "views": vs[: rng.choice([1, 1, 2, 4])]}
    elif r < 0.92 and "getitem" in allow:
        op = {"k": "getitem", "s": s, "d": rng.randrange(nslots), "how": rng.choice(["int", "slice", "list", "bool", "long"])}
    elif r < 0.94 and "restart" in allow:
        op = {"k": "restart", "s": s}
    elif r < 0.98 and "bad" in allow:
        op = {"k": "bad", "s": s, "what": rng.choice(BAD)}
    elif "detach" in allow:
        op = {"k": "detach", "s": s, "d": rng.randrange(nslots)}
    else:
        op = {"k": "read", "s": s, "views": ["points_padded", "nonpad_mask"]}
    op.setdefault("seed", rng.randrange(1 << 30))
    if rng.random() < fault_rate:
        op["fault"] = [round(rng.random(), 6) for _ in range(rng.choice([1, 1, 1, 2]))]
    return op


BAD = ["offset-type", "scale-type", "rotate-shape", "rotate-batch", "transform-shape", "transform-batch", "pinhole-shape",
       "append-type", "append-batch", "append-attrs", "set-list-type", "set-list-len", "set-list-shape",
       "set-padded-shape", "set-padded-pad", "set-padded-type", "getitem-range", "getitem-type", "add-type",
       "matmul-shape", "append-features"]


class Step(object):
    """One operation: `act(pool)` runs the real code on a pool (and may store into it);
    `after` are the models once it has succeeded; `args` the tensors handed to the code."""

    def __init__(self, act, after, dst=None, args=(), out=False, src=None):
        self.act, self.after, self.dst, self.args, self.out, self.src = act, after, dst, list(args), out, src


def operand_scalar_or_tensor(rs, m, lo, hi, dt):
    c = rs.randint(0, 6)
    if c == 0:
        v = float(rs.uniform(lo, hi))
        return v, np.array(v)
    if c == 1:
        v = int(rs.randint(1, 3))
        return v, np.array(float(v))
    if c == 2:
        t = T(rs.uniform(lo, hi), dt)
    elif c == 3:
        t = T(rs.uniform(lo, hi, size=3), dt)
    elif c == 4:
        t = T(rs.uniform(lo, hi, size=(max(m.B, 1), 1, 3)), dt)
    else:
        t = T(rs.uniform(lo, hi, size=(1, 3)), dt)
    return t, t.numpy().astype(np.float64)


def bcast(v, b):
    return v[b] if v.ndim == 3 else v


def rot_operand(rs, m, dt, se3):
    batch = rs.uniform() < 0.5 and not m.empty
    make = (lambda: rigid(rs)) if se3 else (lambda: rotation(rs))
    x = np.stack([make() for _ in range(m.B)]) if batch else make()
    t = T(x, dt)
    return t, t.numpy().astype(np.float64)


def intr_operand(rs, m, dt):
    def one():
        K = np.eye(4)
        K[0, 0], K[1, 1] = rs.uniform(0.5, 2), rs.uniform(0.5, 2)
        K[0, 2], K[1, 2] = rs.uniform(-1, 1), rs.uniform(-1, 1)
        return K

    batch = rs.uniform() < 0.5 and not m.empty
    t = T(np.stack([one() for _ in range(m.B)]) if batch else one(), dt)
    return t, t.numpy().astype(np.float64)


def plan_step(op, models, dt):
    """Returns a Step, or None when the operation does not apply to the current models."""
    k, s = op["k"], op["s"]
    m = models[s]
    rs = npr("op", op.get("seed", 0))
    after = dict(models)
    if k == "new":
        n = roundtrip(make_model(op), dt)
        after[s] = n

        def act(pool):
            pool[s] = make_real(op, n, dt)

        return Step(act, after, dst=s)
    if k in ("offset_", "add", "sub"):
        t, v = operand_scalar_or_tensor(rs, m, -1.5, 1.5, dt)
        sign = -1.0 if k == "sub" else 1.0
        n = m.map_points(lambda b, p: p + sign * bcast(v, b))
        call = {"offset_": lambda o: o.offset_(t), "add": lambda o: o + t, "sub": lambda o: o - t}[k]
        return finish(op, models, after, n, call, [t])
    if k in ("scale_", "mul", "div"):
        t, v = operand_scalar_or_tensor(rs, m, 0.6, 1.6, dt)
        n = m.map_points(lambda b, p: p / bcast(v, b) if k == "div" else p * bcast(v, b))
        call = {"scale_": lambda o: o.scale_(t), "mul": lambda o: o * t, "div": lambda o: o / t}[k]
        return finish(op, models, after, n, call, [t])
    if k in ("rotate_", "rotate"):
        t, v = rot_operand(rs, m, dt, False)
        pre = bool(rs.uniform() < 0.6)
        n = m.rotated(v, pre)
        call = (lambda o: o.rotate_(t, pre_multiplication=pre)) if k[-1] == "_" else (
            lambda o: o.rotate(t, pre_multiplication=pre))
        return finish(op, models, after, n, call, [t])
    if k in ("transform_", "transform"):
        t, v = rot_operand(rs, m, dt, True)
        pre = bool(rs.uniform() < 0.6)
        n = m.transformed(v, pre)
        call = (lambda o: o.transform_(t, pre_multiplication=pre)) if k[-1] == "_" else (
            lambda o: o.transform(t, pre_multiplication=pre))
        return finish(op, models, after, n, call, [t])
    if k == "matmul":
        se3 = bool(rs.uniform() < 0.5)
        t, v = rot_operand(rs, m, dt, se3)
        n = m.transformed(v, False) if se3 else m.rotated(v, False)
        return finish(op, models, after, n, lambda o: o @ t, [t])
    if k in ("pinhole_projection_", "pinhole_projection"):
        t, v = intr_operand(rs, m, dt)
        n = m.projected(v)
        if n is None:
            return None
        call = (lambda o: o.pinhole_projection_(t)) if k[-1] == "_" else (lambda o: o.pinhole_projection(t))
        return finish(op, models, after, n, call, [t])
    if k == "clone":
        return finish(op, models, after, m.copy(), lambda o: o.clone(), [])
    if k == "to":
        return finish(op, models, after, m.copy(), lambda o: o.to(torch.device("cpu"), copy=True), [])
    if k == "detach":
        return finish(op, models, after, m.copy(), lambda o: o.detach(), [])
    if k == "restart":
        return finish(op, models, after, m.copy(), dump_load, [], dst=s)
    if k == "append":
        o = op["o"]
        if op.get("fresh"):
            # a fresh live frame's worth of points with matching attributes
            if m.empty:
                return None
            f = {"k": "new", "s": 0, "form": "list", "sizes": [int(x) for x in rs.choice([0, 0, 1, 2, 4], size=m.B)],
                 "attrs": sum(1 << i for i, a in enumerate(ATTRS) if getattr(m, a) is not None),
                 "C": max(m.C, 1), "seed": op["seed"]}
            other = roundtrip(make_model(f), dt)
            real_other = make_real(f, other, dt)
            after[s] = m.appended(other)

            def act(pool):
                r = pool[s].append_points(real_other)
                if r is not pool[s]:
                    raise Violation("wrong-return", "append_points did not return the map it was called on")

            return Step(act, after, dst=s, args=[getattr(real_other, a + "_list") for a in ("points",) + ATTRS
                                                 if getattr(other, a) is not None])
        if o == s or not m.appendable(models[o]):
            return None
        if sum(m.sizes) + sum(models[o].sizes) > 60:
            return None
        after[s] = m.appended(models[o])

        def act(pool):
            r = pool[s].append_points(pool[o])
            if r is not pool[s]:
                raise Violation("wrong-return", "append_points did not return the map it was called on")

        return Step(act, after, dst=s, src=o)
    if k == "set":
        if m.empty:
            return None
        attr = op["attr"]
        c = 3 if attr != "features" else (op["C"] or (m.C or 1))
        vals = [rows(rs, n, c, attr) for n in m.sizes]
        n = m.copy()
        setattr(n, attr, vals)
        roundtrip(n, dt)
        if op["form"] == "list":
            value = [T(x, dt) for x in vals]
        else:
            value = T(n.padded(attr), dt)
        after[s] = n
        name = attr + "_" + op["form"]

        def act(pool):
            setattr(pool[s], name, value)

        return Step(act, after, dst=s, args=[value])
    if k == "getitem":
        if m.empty:
            return None
        how = op["how"]
        if how == "int":
            i = int(rs.randint(-m.B, m.B))
            idx, sel = i, [i % m.B]
        elif how == "slice":
            a = int(rs.randint(0, m.B))
            b = int(rs.randint(a + 1, m.B + 1))
            idx, sel = slice(a, b), list(range(a, b))
        elif how == "list":
            sel = [int(x) for x in rs.randint(0, m.B, size=rs.randint(1, m.B + 1))]
            idx = list(sel)
        elif how == "bool":
            bm = rs.uniform(size=m.B) < 0.6
            bm[rs.randint(0, m.B)] = True
            idx, sel = torch.tensor(bm), [i for i in range(m.B) if bm[i]]
        else:
            sel = [int(x) for x in rs.randint(0, m.B, size=rs.randint(1, m.B + 1))]
            idx = torch.tensor(sel)
        return finish(op, models, after, m.selected(sel), lambda o: o[idx], [])
    return None


def finish(op, models, after, n, call, args, dst=None):
    s = op["s"]
    if n.maxabs() > 2e3:
        return None
    if dst is None:
        dst = op.get("d", s)
    inplace = op["k"] in INPLACE
    if inplace:
        dst = s
    after[dst] = n

    def act(pool):
        r = call(pool[s])
        if inplace:
            if r is not pool[s]:
                raise Violation("wrong-return", "%s did not return the map it was called on" % op["k"])
        else:
            if type(r).__name__ != "Pointclouds":
                raise Violation("wrong-return", "%s returned %r" % (op["k"], type(r)))
            pool[dst] = r

    return Step(act, after, dst=dst, args=[a for a in args if torch.is_tensor(a)], out=not inplace)


def bad_call(op, m, dt):
    """A misuse that must be rejected with an exception; None when it does not apply."""
    w = op["what"]
    rs = npr("bad", op["seed"])
    z = lambda *sh: torch.zeros(*sh, dtype=dt)
    if w == "offset-type":
        return lambda o: o.offset_("x")
    if w == "scale-type":
        return lambda o: o.scale_(None)
    if w == "add-type":
        return lambda o: o + "x"
    if w == "rotate-shape":
        return lambda o: o.rotate_(z(2, 2))
    if w == "transform-shape":
        return lambda o: o.transform_(z(3, 4))
    if w == "pinhole-shape":
        return lambda o: o.pinhole_projection_(z(3, 3))
    if w == "matmul-shape":
        return lambda o: o @ z(2, 4)
    if w == "append-type":
        return lambda o: o.append_points([z(2, 3)])
    if m.empty:
        if w.startswith("set-list"):
            return lambda o: setattr(o, "points_list", [z(2, 3)])
        if w.startswith("set-padded"):
            return lambda o: setattr(o, "colors_padded", z(1, 2, 3))
        if w.startswith("getitem"):
            return lambda o: o[0]
        return None
    if w == "rotate-batch":
        return lambda o: o.rotate_(torch.eye(3, dtype=dt).repeat(m.B + 1, 1, 1))
    if w == "transform-batch":
        return lambda o: o.transform_(torch.eye(4, dtype=dt).repeat(m.B + 1, 1, 1))
    if w == "append-batch":
        f = {"form": "list", "sizes": [2] * (m.B + 1), "C": max(m.C, 1), "seed": op["seed"],
             "attrs": sum(1 << i for i, a in enumerate(ATTRS) if getattr(m, a) is not None)}
        return lambda o: o.append_points(make_real(f, make_model(f), dt))
    if w == "append-attrs":
        have = sum(1 << i for i, a in enumerate(ATTRS) if getattr(m, a) is not None)
        f = {"form": "list", "sizes": [2] * m.B, "C": max(m.C, 1), "seed": op["seed"], "attrs": have ^ (1 << rs.randint(0, 3))}
        return lambda o: o.append_points(make_real(f, make_model(f), dt))
    if w == "append-features":
        if m.features is None:
            return None
        have = sum(1 << i for i, a in enumerate(ATTRS) if getattr(m, a) is not None)
        f = {"form": "list", "sizes": [2] * m.B, "C": m.C + 1, "seed": op["seed"], "attrs": have}
        return lambda o: o.append_points(make_real(f, make_model(f), dt))
    attr = ["points", "normals", "colors"][rs.randint(0, 3)]
    if w == "set-list-type":
        return lambda o: setattr(o, attr + "_list", tuple(z(n, 3) for n in m.sizes))
    if w == "set-list-len":
        return lambda o: setattr(o, attr + "_list", [z(n, 3) for n in m.sizes] + [z(1, 3)])
    if w == "set-list-shape":
        b = rs.randint(0, m.B)
        return lambda o: setattr(o, attr + "_list", [z(n + (1 if i == b else 0), 3) for i, n in enumerate(m.sizes)])
    if w == "set-padded-shape":
        return lambda o: setattr(o, attr + "_padded", z(m.B, max(m.sizes) + 1, 3))
    if w == "set-padded-type":
        return lambda o: setattr(o, attr + "_padded", [z(n, 3) for n in m.sizes])
    if w == "set-padded-pad":
        if len(set(m.sizes)) == 1:
            return None
        return lambda o: setattr(o, attr + "_padded", z(m.B, max(m.sizes), 3) + 1.0)
    if w == "getitem-range":
        return lambda o: o[m.B + 3]
    if w == "getitem-type":
        return lambda o: o[1.5]
    return None


def describe(op):
    return {k: v for k, v in op.items() if k not in ("seed",)}


class MapHistories(Property):
    """M01: every view of the map agrees with a model after any history of operations."""

    id = "M01"
    quick_runs = 6000
    thorough_runs = 600000
    allow = ("getitem", "restart", "bad", "detach")
    fault_rate = 0.0
    real = ["gradslam.structures.Pointclouds", "gradslam.structures.structutils", "gradslam.geometry.projutils", "torch CPU kernels"]
    stubs = ["open3d (visualiser, never reached by these operations)"]
    rule = ("one run = a seeded history of 4-26 operations (construct, append, in-place and out-of-place arithmetic/rotation/"
            "transform/projection, attribute setters in list or padded form, reads that warm lazy caches, indexing, "
            "checkpoint+restart, rejected calls) over 3 maps; after every operation all views of all maps are compared with "
            "the model on a deep copy; non-trivial = at least one restart, rejected call or fault fired, distinct by operation sequence")
    assumptions = ["values are compared within 2e-5 relative (float32) / 1e-9 (float64) of a float64 model",
                   "projection is only exercised with |z| >= 0.05"]
    expected_probes = ("append-onto-cold-cache", "unequal-sizes", "zero-size-element", "other-device")

    def generate(self, rng, tier):
        B = rng.choice([1, 2, 2, 3])
        n = rng.randint(4, 26) if tier == "quick" else rng.randint(4, 60)
        ops = [draw_new(rng, B, i) for i in range(3)]
        for _ in range(n):
            ops.append(draw_op(rng, B, 3, self.allow, self.fault_rate))
            if self.fault_rate == 0 and rng.random() < 0.03:
                ops.append({"k": "away", "s": rng.randrange(3)})
        return {"dtype": rng.choice(["f32", "f32", "f64"]), "ops": ops}

    def execute(self, plan, run):
        dt = DT[plan["dtype"]]
        pool = {i: PC()() for i in range(3)}
        models = {i: Cloud() for i in range(3)}
        for step_no, op in enumerate(plan["ops"]):
            where = "step %d %s" % (step_no, describe(op))
            run.shape(op["k"], op.get("attr"), op.get("form"), op.get("what"), op.get("sizes"))
            models = self.one(op, pool, models, dt, run, where)
            run.event(step_no, op["k"], [m.sizes for m in models.values()])
        for i in range(3):
            vs = VIEWS[:]
            rng_of(plan.get("_seed", 0), i).shuffle(vs)
            check_all(run, pool[i], models[i], dt, "end, map %d" % i, vs)

    def one(self, op, pool, models, dt, run, where):
        if op["k"] == "read":
            for v in op["views"]:
                check_view(run, pool[op["s"]], models[op["s"]], v, dt, where)
            return models
        if op["k"] == "away":
            sent_away(run, pool[op["s"]], models[op["s"]], where)
            self.check_pool(run, pool, models, dt, where)
            return models
        if op["k"] == "bad":
            call = bad_call(op, models[op["s"]], dt)
            if call is None:
                return models
            try:
                call(pool[op["s"]])
            except Exception as e:
                run.event("rejected", type(e).__name__)
            else:
                raise Violation("accepted-invalid", "%s was accepted" % where)
            run.fault("rejected-call")
            self.check_pool(run, pool, models, dt, where)
            return models
        st = plan_step(op, models, dt)
        if st is None:
            return models
        m = st.after[st.dst]
        if op["k"] == "append" and not m.empty:
            run.probe("append-onto-cold-cache")
        if not m.empty:
            if len(set(m.sizes)) > 1:
                run.probe("unequal-sizes")
            if 0 in m.sizes:
                run.probe("zero-size-element")
        self.run_step(op, st, pool, models, dt, run, where)
        if op["k"] == "restart":
            run.fault("restart-from-checkpoint")
        self.check_pool(run, pool, st.after, dt, where)
        run.state([x.sizes for x in st.after.values()], [[getattr(x, a) is not None for a in ATTRS] for x in st.after.values()])
        return st.after

    def run_step(self, op, st, pool, models, dt, run, where):
        st.act(pool)

    def check_pool(self, run, pool, models, dt, where, kind="incoherent-view"):
        snap = snapshot(pool)
        for i, m in models.items():
            check_all(run, snap[i], m, dt, "%s, map %d" % (where, i), kind=kind)


class MapAllocFaults(MapHistories):
    """M02: an operation interrupted by a failed allocation leaves every map as it was, and can be retried."""

    id = "M02"
    level = "fault_enumeration"
    quick_runs = 3500
    thorough_runs = 350000
    allow = ("getitem", "restart", "detach")
    fault_rate = 0.6
    rule = ("as M01, but most operations first run with their k-th tensor allocation failing (k drawn uniformly over the "
            "allocations the operation makes, counted on a deep copy; sometimes the retry fails again elsewhere); a failed "
            "operation must leave all maps equal to the model before it, the final retry must give the model after it")
    expected_probes = ("failed-in-place", "failed-append", "failed-setter", "failed-read", "fault-not-reached")

    def attempt(self, fn, u, pool, run):
        """Runs fn(pool) with one failed allocation. True when the fault surfaced as an error."""
        trial = snapshot(pool)
        with alloc_faults() as c:
            fn(trial)
        if c.n == 0:
            run.probe("no-allocation")
            return None
        k = min(int(u * c.n), c.n - 1)
        f = alloc_faults([k])
        try:
            with f:
                fn(pool)
        except RuntimeError as e:
            if not is_injected_alloc(e):
                raise
            run.fault("failed-allocation")
            return True
        if f.fired:
            run.fault("failed-allocation")
            run.probe("fault-absorbed")
        else:
            run.probe("fault-not-reached")
        return False

    def one(self, op, pool, models, dt, run, where):
        if op["k"] == "read" and op.get("fault"):
            s = op["s"]
            for u in op["fault"]:
                def fn(p):
                    for v in op["views"]:
                        check_view(run, p[s], models[s], v, dt, where)

                if self.attempt(fn, u, pool, run):
                    run.probe("failed-read")
                    run.shape("fault", u)
                    self.check_pool(run, pool, models, dt, where + " (allocation failed)", "not-atomic")
            fn(pool)
            return models
        return MapHistories.one(self, op, pool, models, dt, run, where)

    def run_step(self, op, st, pool, models, dt, run, where):
        done = False
        if op["k"] not in ("new", "restart"):
            for u in op.get("fault", []):
                r = self.attempt(st.act, u, pool, run)
                run.shape("fault", r, u)
                run.event("attempt", r)
                if r is None:
                    break
                if r is False:
                    done = True
                    break
                run.probe({"append": "failed-append", "set": "failed-setter"}.get(
                    op["k"], "failed-in-place" if op["k"] in INPLACE else "failed-out-of-place"))
                self.check_pool(run, pool, models, dt, where + " (allocation failed)", "not-atomic")
        if not done:
            st.act(pool)


def reader_results(model, dt, op):
    """(call(real), check(run, result)) for one read-only access of a shared map."""
    k = op["k"]
    if k == "view":
        return None
    models = {0: model, 1: Cloud()}
    o = dict(op, s=0, d=1)
    st = plan_step(o, models, dt)
    return st


class MapConcurrentReaders(Property):
    """M03: threads that only read a shared map all see the same map, whatever the schedule."""

    id = "M03"
    quick_runs = 20000
    thorough_runs = 2000000
    list_fields = ("prefix", "threads.0", "threads.1", "threads.2")
    real = MapHistories.real
    stubs = ["open3d", "thread scheduling (replaced by the simulator's scheduler)"]
    rule = ("one run = a short history building a map (caches cold or partly warm), then 2-3 threads each making 1-5 read-only "
            "accesses (views, len, indexing, clone, out-of-place arithmetic) on it under a seeded random or PCT schedule that "
            "may preempt at any source line of gradslam; non-trivial = at least one preemption inside gradslam; distinct by accesses and schedule taken")
    assumptions = ["switch points are gradslam source lines: races inside one torch kernel call are not explored"]
    expected_probes = ("preempted-inside-gradslam",)

    def generate(self, rng, tier):
        B = rng.choice([1, 2, 3])
        prefix = [draw_new(rng, B, 0)]
        prefix[0]["attrs"] = rng.choice([7, 7, 3, 0]) if "attrs" in prefix[0] else 0
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            o = draw_op(rng, B, 1, ())
            if o["k"] not in ("read",) and o["k"] not in OUT and o["k"] != "new":
                prefix.append(o)
        threads = {}
        for t in range(rng.choice([2, 2, 3])):
            acc = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                if rng.random() < 0.65:
                    acc.append({"k": "view", "v": rng.choice(VIEWS), "seed": 0})
                else:
                    o = {"k": rng.choice(OUT + ["getitem"]), "s": 0, "d": 1, "seed": rng.randrange(1 << 30),
                         "how": rng.choice(["int", "slice", "list", "bool", "long"])}
                    acc.append(o)
            threads[str(t)] = acc
        return {"dtype": rng.choice(["f32", "f64"]), "prefix": prefix, "threads": threads, "sched": sched.draw(rng)}

    def execute(self, plan, run):
        dt = DT[plan["dtype"]]
        pool, models = {0: PC()()}, {0: Cloud()}
        for op in plan["prefix"]:
            st = plan_step(dict(op, s=0), models, dt)
            if st is not None:
                st.act(pool)
                models = {0: st.after[0]}
        shared, model = pool[0], models[0]
        run.shape(model.sizes, [[a.get("k"), a.get("v"), a.get("how")] for t in sorted(plan["threads"]) for a in plan["threads"][t]])
        names = sorted(plan["threads"])

        def body(t):
            accs = []
            for a in plan["threads"][t]:
                if a["k"] == "view":
                    accs.append((a, None))
                else:
                    st = plan_step(dict(a, s=0, d=1), {0: model, 1: Cloud()}, dt)
                    if st is not None:
                        accs.append((a, st))

            def go():
                out = []
                for a, st in accs:
                    if st is None:
                        v = a["v"]
                        check_view(run, shared, model, v, dt, "thread %s reading %s" % (t, v), "reader-saw-wrong-value")
                    else:
                        p = {0: shared, 1: None}
                        st.act(p)
                        out.append((a, st, p[1]))
                return out

            return go

        res = sched.Scheduler(plan["sched"], run).go([body(t) for t in names])
        for t, (status, val) in zip(names, res):
            if status == "error":
                raise val
            for a, st, r in val:
                check_all(run, r, st.after[1], dt, "thread %s result of %s" % (t, a["k"]), kind="reader-saw-wrong-value")
        check_all(run, shared, model, dt, "after all readers", kind="reader-changed-the-map")


class MapIsolation(MapHistories):
    """M04: clones, appended points, results and assigned values share nothing with their sources."""

    id = "M04"
    level = "fault_enumeration"
    quick_runs = 3500
    thorough_runs = 350000
    allow = ("restart", "bad")
    rule = ("as M01 without indexing and detach (documented to share storage); after an operation the tensors handed to it are overwritten "
            "in place, at random moments one map's own tensors are overwritten in place ('scribble', that map is then "
            "rebuilt), and out-of-place operations are additionally cut by a simulated crash at a random gradslam line; every other map must still equal its model")
    expected_probes = ("scribbled-map", "scribbled-argument", "crash-inside-out-of-place")

    def generate(self, rng, tier):
        plan = MapHistories.generate(self, rng, tier)
        ops = []
        B = rng.choice([1, 2, 3])
        for op in plan["ops"]:
            if op["k"] in OUT and rng.random() < 0.3:
                op["crash"] = round(rng.random(), 6)
            if op["k"] == "append" and rng.random() < 0.4:
                op["fresh"] = False
            ops.append(op)
            if rng.random() < 0.25:
                s = rng.randrange(3)
                ops.append({"k": "scribble", "s": s, "seed": rng.randrange(1 << 30),
                            "how": rng.choice(["list", "padded", "both"]), "new": draw_new(rng, B, s)})
        plan["ops"] = ops
        return plan

    def scribble(self, pc, how, run):
        for form in (("list", "padded") if how == "both" else (how,)):
            for a in ("points",) + ATTRS:
                v = getattr(pc, a + "_" + form)
                for t in v if isinstance(v, list) else [v]:
                    if torch.is_tensor(t) and t.numel():
                        t.data.fill_(-777.0)
        m = pc.num_points_per_pointcloud
        if torch.is_tensor(m):
            m.data.add_(1000)
        k = pc.nonpad_mask
        if torch.is_tensor(k):
            k.data.fill_(False)

    def one(self, op, pool, models, dt, run, where):
        if op["k"] == "scribble":
            s = op["s"]
            if not models[s].empty:
                self.scribble(pool[s], op["how"], run)
                run.probe("scribbled-map")
                run.fault("scribble")
            after = dict(models)
            st = plan_step(dict(op["new"], s=s), models, dt)
            st.act(pool)
            self.check_pool(run, pool, st.after, dt, where, "shared-storage")
            return st.after
        return MapHistories.one(self, op, pool, models, dt, run, where)

    def run_step(self, op, st, pool, models, dt, run, where):
        if st.out and "crash" in op and op["k"] != "restart":
            trial = snapshot(pool)
            with CrashAt(None) as c:
                st.act(trial)
            if c.n:
                k = min(int(op["crash"] * c.n), c.n - 1)
                before = pool.get(st.dst)
                try:
                    with CrashAt(k) as cc:
                        st.act(pool)
                except SimCrash:
                    run.fault("crash-inside-operation")
                    run.probe("crash-inside-out-of-place")
                    run.shape("crash", k)
                    self.check_pool(run, pool, models, dt, where + " (crashed at line event %d)" % k, "source-changed")
        st.act(pool)
        if st.args:
            for a in st.args:
                for t in a if isinstance(a, list) else [a]:
                    if t.numel():
                        t.data.fill_(-555.0)
            run.probe("scribbled-argument")


PROPERTIES = [MapHistories(), MapAllocFaults(), MapConcurrentReaders(), MapIsolation()]
