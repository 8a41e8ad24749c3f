"""Simulated camera: a ray-cast room seen from a moving camera, with sensor faults per frame."""
import numpy as np

from .tools import npr, rotation

FAULTS = ["ok", "dropout", "occluded", "noise", "stalled", "blackout", "jump", "window"]


def planes_of(rs):
    """A tilted room corner: points p with n.p = d."""
    out = []
    for n, d in (([0, 0, 1], 3.0), ([0, 1, 0], 1.1), ([1, 0, 0], 1.4), ([-1, 0, 0], 1.5), ([0, -1, 0], 1.2)):
        n = rotation(rs, 0.25) @ np.array(n, float)
        out.append((n, d + rs.uniform(-0.2, 0.2)))
    return out


def render(planes, T, K, H, W):
    v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    d = np.stack([(u - K[0, 2]) / K[0, 0], (v - K[1, 2]) / K[1, 1], np.ones_like(u, float)], -1)
    dw = d @ T[:3, :3].T
    o = T[:3, 3]
    z = np.full((H, W), 10.0)
    for n, c in planes:
        den = dw @ n
        with np.errstate(divide="ignore", invalid="ignore"):
            t = (c - n @ o) / den
        t = np.where((den > 1e-6) & (t > 0.05), t, 10.0)
        z = np.minimum(z, t)
    p = o + dw * z[..., None]
    rgb = np.floor(127 + 120 * np.sin(p * np.array([2.0, 3.0, 2.5]) + np.array([0, 1, 2.0])))
    return rgb, z


def draw(rng, kinds=None, B=None, L=None, rates=0.35, first_ok=True, small=False):
    B = B or rng.choice([1, 2, 2, 3])
    L = L or rng.randint(2, 5)
    H, W = rng.choice([(5, 6), (6, 8), (8, 8), (8, 10)] if small else [(6, 8), (8, 10), (10, 12)])
    kinds = kinds or FAULTS[1:]
    f = [[("ok" if (first_ok and l == 0) or rng.random() >= rates else rng.choice(kinds)) for l in range(L)] for _ in range(B)]
    return {"B": B, "L": L, "H": H, "W": W, "seed": rng.randrange(1 << 30), "faults": f, "move": rng.choice([0.0, 0.01, 0.03, 0.06]),
            "marker": rng.choice([0, 0, 0, -1.0, -0.001])}  # what the sensor writes where it has no depth


def build(spec):
    """Arrays of the whole batch, channels last: rgb (B,L,H,W,3), depth (B,L,H,W,1), K (B,1,4,4), poses (B,L,4,4)."""
    B, L, H, W = spec["B"], spec["L"], spec["H"], spec["W"]
    rgb, dep = np.zeros((B, L, H, W, 3)), np.zeros((B, L, H, W, 1))
    Ks, poses = np.zeros((B, 1, 4, 4)), np.zeros((B, L, 4, 4))
    for b in range(B):
        rs = npr("scene", spec["seed"], b)
        pl = planes_of(rs)
        K = np.eye(4)
        K[0, 0], K[1, 1] = rs.uniform(0.8, 1.2) * W, rs.uniform(0.8, 1.2) * H
        K[0, 2], K[1, 2] = (W - 1) / 2 + rs.uniform(-0.5, 0.5), (H - 1) / 2 + rs.uniform(-0.5, 0.5)
        Ks[b, 0] = K
        T = np.eye(4)
        T[:3, :3] = rotation(rs, 0.2)
        T[:3, 3] = rs.uniform(-0.3, 0.3, 3)
        for l in range(L):
            fl = spec["faults"][b][l]
            rf = npr("frame", spec["seed"], b, l)
            if l and fl != "stalled":
                D = np.eye(4)
                D[:3, :3] = rotation(rf, 1.2 if fl == "jump" else spec["move"])
                D[:3, 3] = rf.uniform(-1, 1, 3) * spec["move"]
                T = T @ D
            poses[b, l] = T
            if l and fl == "stalled":
                rgb[b, l], dep[b, l] = rgb[b, l - 1], dep[b, l - 1]
                continue
            c, z = render(pl, T, K, H, W)
            if fl == "dropout":
                z = np.where(rf.uniform(size=z.shape) < rf.choice([0.05, 0.3, 0.7]), 0, z)
            elif fl == "occluded":
                z[:, : rf.randint(1, W)] = 0
            elif fl == "window":
                # all but a few pixels are lost
                v0, u0 = rf.choice([0, 1, H - 3, H - 2]), rf.choice([0, 1, W - 3, W - 2])
                m = np.zeros_like(z)
                m[v0:v0 + rf.choice([2, 2, 3]), u0:u0 + rf.choice([2, 2, 3])] = 1
                z = z * m
            elif fl == "noise":
                z = z * (1 + 0.01 * rf.uniform(-1, 1, z.shape))
            elif fl == "blackout":
                z, c = np.zeros_like(z), np.zeros_like(c)
            rgb[b, l], dep[b, l, ..., 0] = c, z
    unit = spec.get("unit", 1)  # of length: how many to the metre
    poses[..., :3, 3] *= unit
    return rgb, np.where(dep > 0, dep * unit, spec.get("marker", 0)), Ks, poses


def constraint(z, K, step=1):
    """How well the view pins down all six degrees of freedom: smallest singular value of the point-to-plane Jacobian of one depth
    image about its own centre (0 when there is hardly anything to see), using one pixel in `step`."""
    H, W = z.shape
    v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    p = np.stack([(u - K[0, 2]) / K[0, 0] * z, (v - K[1, 2]) / K[1, 1] * z, z], -1)
    n = np.cross(p[:-1, 1:] - p[:-1, :-1], p[1:, :-1] - p[:-1, :-1])
    ok = (z[:-1, :-1] > 0) & (z[:-1, 1:] > 0) & (z[1:, :-1] > 0)
    ln = np.linalg.norm(n, axis=-1)
    ok &= (ln > 1e-12) & (v[:-1, :-1] % step == 0) & (u[:-1, :-1] % step == 0)
    if ok.sum() < 6:
        return 0.0
    n = n[ok] / ln[ok][:, None]
    q = p[:-1, :-1][ok]
    J = np.concatenate([n, np.cross(q - q.mean(0), n)], 1)
    return float(np.linalg.svd(J, compute_uv=False)[-1])


def spacing(z, K):
    """Smallest distance between two points of a view."""
    H, W = z.shape
    v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    p = np.stack([(u - K[0, 2]) / K[0, 0] * z, (v - K[1, 2]) / K[1, 1] * z, z], -1)[z > 0]
    if len(p) < 2:
        return 0.0
    d = np.linalg.norm(p[:, None] - p[None], axis=-1)
    return float(d[np.triu_indices(len(p), 1)].min())
