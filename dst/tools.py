"""Small helpers shared by the properties (imported only after env.load())."""
import io
import random

import numpy as np
import torch

from .core import Violation


def rng_of(*parts):
    """A random.Random that is a pure function of `parts` (ints, floats, strings)."""
    return random.Random("/".join(str(p) for p in parts))


def npr(*parts):
    return np.random.RandomState(rng_of(*parts).randrange(1 << 31))


def seed_torch(s):
    torch.manual_seed(int(s) & 0x7FFFFFFF)
    np.random.seed(int(s) & 0x7FFFFFFF)
    random.seed(int(s))


def rotation(rs, angle=None):
    """A random rotation matrix (3,3) float64 of at most `angle` radians (any, when None)."""
    axis = rs.normal(size=3)
    axis = axis / max(np.linalg.norm(axis), 1e-9)
    th = rs.uniform(-np.pi, np.pi) if angle is None else rs.uniform(-angle, angle)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * (K @ K)


def rigid(rs, angle=None, trans=1.0):
    T = np.eye(4)
    T[:3, :3] = rotation(rs, angle)
    T[:3, 3] = rs.uniform(-trans, trans, size=3)
    return T


def to_np(t):
    return t.detach().cpu().numpy()


def close(a, b, tol):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(invalid="ignore"):
        d = np.abs(a - b)
    return bool(np.all(d <= tol))  # NaN compares false


def diff_text(name, a, b):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return "%s: shape %s, expected %s" % (name, a.shape, b.shape)
    d = np.abs(a - b)
    bad = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.size else ()
    return "%s: at %s got %r, expected %r (max difference %r)" % (
        name, tuple(int(x) for x in bad), float(a[bad]), float(b[bad]), float(d[bad]))


def freeze_tensor(t):
    return None if t is None else t.detach().clone()


def same_bits(a, b):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    return a.shape == b.shape and a.dtype == b.dtype and bool(torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)))


def dump_load(obj):
    """Durable checkpoint and restore in a new process: only the serialised bytes survive."""
    f = io.BytesIO()
    torch.save(obj, f)
    f.seek(0)
    return torch.load(f)


def expect(run, got, want, kind, name, tol):
    run.stats["checks"] += 1
    if not close(got, want, tol):
        raise Violation(kind, diff_text(name, got, want))
