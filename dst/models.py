"""Reference models: same observable interface, trivial inside (numpy float64, one copy of everything)."""
import copy

import numpy as np

ATTRS = ("normals", "colors", "features")


class Cloud(object):
    """A batch of pointclouds: per attribute, a list of B arrays, or None when absent."""

    def __init__(self, points=None, normals=None, colors=None, features=None):
        self.points, self.normals, self.colors, self.features = points, normals, colors, features

    def copy(self):
        return copy.deepcopy(self)

    @property
    def empty(self):
        return self.points is None

    @property
    def B(self):
        return 0 if self.points is None else len(self.points)

    @property
    def sizes(self):
        return [len(p) for p in self.points] if self.points is not None else []

    @property
    def C(self):
        return 0 if self.features is None else self.features[0].shape[-1]

    def padded(self, name):
        v = getattr(self, name)
        if v is None:
            return None
        out = np.zeros((self.B, max(self.sizes), v[0].shape[-1]))
        for b, x in enumerate(v):
            out[b, : len(x)] = x
        return out

    def mask(self):
        out = np.zeros((self.B, max(self.sizes)), dtype=bool)
        for b, n in enumerate(self.sizes):
            out[b, :n] = True
        return out

    def maxabs(self):
        m = 1.0
        for k in ("points",) + ATTRS:
            for x in getattr(self, k) or []:
                if x.size:
                    m = max(m, float(np.abs(x).max()))
        return m

    # -- transitions (return a new model) -----------------------------------
    def map_points(self, f):
        c = self.copy()
        if not c.empty:
            c.points = [f(b, p) for b, p in enumerate(c.points)]
        return c

    def rotated(self, R, pre):
        """R: (3,3) or (B,3,3)"""
        c = self.copy()
        if c.empty:
            return c
        for k in ("points", "normals"):
            v = getattr(c, k)
            if v is not None:
                out = []
                for b, x in enumerate(v):
                    r = R[b] if R.ndim == 3 else R
                    out.append(x @ (r.T if pre else r))
                setattr(c, k, out)
        return c

    def transformed(self, T, pre):
        c = self.rotated(T[..., :3, :3], pre)
        if not c.empty:
            c.points = [p + (T[b, :3, 3] if T.ndim == 3 else T[:3, 3]) for b, p in enumerate(c.points)]
        return c

    def projected(self, K):
        """None when some point is too close to the camera plane for the model to decide."""
        c = self.copy()
        if c.empty:
            return c
        out = []
        for b, p in enumerate(c.points):
            k = K[b] if K.ndim == 3 else K
            if len(p) and np.abs(p[:, 2]).min() < 0.05:
                return None
            uv = (p @ k[:3, :3].T)[:, :2] / p[:, 2:3] if len(p) else np.zeros((0, 2))
            out.append(np.concatenate([uv, np.ones((len(p), 1))], 1))
        c.points = out
        return c

    def appended(self, other):
        if other.empty:
            return self.copy()
        if self.empty:
            return other.copy()
        c = self.copy()
        for k in ("points",) + ATTRS:
            if getattr(c, k) is not None:
                setattr(c, k, [np.concatenate([x, y], 0) for x, y in zip(getattr(c, k), getattr(other, k))])
        return c

    def appendable(self, other):
        if self.empty or other.empty:
            return True
        return (self.B == other.B and all((getattr(self, k) is None) == (getattr(other, k) is None) for k in ATTRS)
                and self.C == other.C)

    def selected(self, idx):
        c = Cloud()
        for k in ("points",) + ATTRS:
            v = getattr(self, k)
            setattr(c, k, None if v is None else [v[i].copy() for i in idx])
        return c
