"""What the helper functions say they compute, written again in numpy: {function: reference(**arguments)}.

A reference returns the expected value (arrays, lists of arrays, text, or None where another part of the framework decides the value).
Arrays may hold nan where either answer would do."""
import numpy as np

REF = {}


def ref(name):
    def deco(fn):
        REF[name] = fn
        return fn

    return deco


def T4(R, t):
    X = np.zeros(np.shape(t)[:-1] + (4, 4))
    X[..., :3, :3], X[..., :3, 3], X[..., 3, 3] = R, t, 1
    return X


def homog(p):
    return np.concatenate([p, np.ones(p.shape[:-1] + (1,))], -1)


def inverse(X):
    return np.linalg.inv(X)


@ref("homogenize_points")
def _(pts):
    return homog(pts)


@ref("unhomogenize_points")
def _(pts, eps=1e-6):
    w = pts[..., -1:]
    return pts[..., :-1] / np.where(np.abs(w) > eps, w, 1)


def axis_angle(q):
    """Of one unit quaternion x, y, z, w."""
    n = np.linalg.norm(q[:3])
    if n < 1e-9:
        return 2 * q[:3]
    a = 2 * np.arctan2(n, q[3])
    return q[:3] / n * (a - 2 * np.pi if a > np.pi else a)


def each(f, x, d):
    """f on every item, items being the last d dimensions."""
    y = [f(v) for v in x.reshape((-1,) + x.shape[x.ndim - d:])]
    return np.asarray(y).reshape(x.shape[:x.ndim - d] + np.shape(y[0]))


@ref("quaternion_to_axisangle")
def _(quat):
    return each(axis_angle, quat, 1)


@ref("normalize_quaternion")
def _(quaternion, eps=1e-12):
    return quaternion / np.maximum(np.linalg.norm(quaternion, axis=-1, keepdims=True), eps)


def rotation_of(q):
    """Of one quaternion x, y, z, w: v + 2 w (u x v) + 2 u x (u x v), column by column."""
    q = q / np.linalg.norm(q)
    u, w = q[:3], q[3]
    return np.stack([e + 2 * w * np.cross(u, e) + 2 * np.cross(u, np.cross(u, e)) for e in np.eye(3)], 1)


@ref("quaternion_to_rotation_matrix")
def _(quaternion):
    return each(rotation_of, quaternion, 1)


@ref("inverse_transfom_3d")
def _(trans):
    return inverse(trans)


@ref("compose_transforms_3d")
def _(trans1, trans2):
    return trans1 @ trans2


@ref("relative_transform_3d")
def _(trans_01, trans_02):
    return inverse(trans_01) @ trans_02


@ref("relative_transformation")
def _(trans_01, trans_02, orthogonal_rotations=False):
    return inverse(trans_01) @ trans_02


def moved(p, X):
    """Points (..., 3 or 4) under one transformation."""
    p = homog(p) if p.shape[-1] == 3 else p
    q = p @ X.T
    return q[..., :-1] / np.where(np.abs(q[..., -1:]) > 1e-6, q[..., -1:], 1)


@ref("transform_pts_3d")
def _(pts_b, t_ab):
    return moved(pts_b, t_ab)


@ref("transform_pts_nd_KF")
def _(pts, tform):
    return np.stack([moved(p, X) for p, X in zip(pts, tform)])


@ref("normalize_pixel_coords")
def _(pixel_coords, height, width):
    return 2 * pixel_coords / (np.array([height, width]) - 1.0) - 1


@ref("unnormalize_pixel_coords")
def _(pixel_coords_norm, height, width):
    return (pixel_coords_norm + 1) * (np.array([height, width]) - 1.0) / 2


@ref("create_meshgrid")
def _(height, width, normalized_coords=True):
    g = np.stack(np.meshgrid(np.arange(height), np.arange(width), indexing="ij"), -1)[None].astype(float)
    return 2 * g / (np.array([height, width]) - 1.0) - 1 if normalized_coords else g


def seen(p):
    """The picture position of camera-frame points times a projection matrix."""
    return p[..., :2] / np.where(p[..., 2:3] != 0, p[..., 2:3], 1)


@ref("cam2pixel")
def _(cam_coords_src, dst_proj_src, eps=1e-6):
    return seen(moved(cam_coords_src, dst_proj_src))


@ref("cam2pixel_KF")
def _(cam_coords_src, P, eps=1e-6):
    return seen(np.stack([moved(p, P[i] if P.ndim == 3 else P) for i, p in enumerate(cam_coords_src)]))


@ref("pixel2cam")
def _(depth, intrinsics_inv, pixel_coords):
    d = depth.transpose(0, 2, 3, 1) if depth.ndim == 4 else depth[..., None]
    return moved(pixel_coords, intrinsics_inv) * d


@ref("transform_pointcloud")
def _(pointcloud, transform):
    return moved(pointcloud, transform)


@ref("transform_normals")
def _(normals, transform):
    return normals @ transform[:3, :3].T


def every(p, M):
    """Matrix times point, with one matrix, one per element, or one per row."""
    if M.ndim == 2:
        return p @ M.T
    return np.stack([every(p[i], M[i if M.shape[0] > 1 else 0]) for i in range(len(p))])


@ref("project_points")
def _(cam_coords, proj_mat, eps=1e-6):
    return seen(every(homog(cam_coords) if cam_coords.shape[-1] == 3 else cam_coords, proj_mat))


@ref("unproject_points")
def _(pixel_coords, intrinsics_inv, depths):
    return every(homog(pixel_coords) if pixel_coords.shape[-1] == 2 else pixel_coords, intrinsics_inv) * depths[..., None]


@ref("inverse_intrinsics")
def _(K, eps=1e-6):
    # eps keeps the focal lengths from zero
    K = K.copy()
    K[..., 0, 0] += eps
    K[..., 1, 1] += eps
    return inverse(K)


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def expm(A):
    """Scaling and squaring of the series."""
    out, term = np.eye(len(A)), np.eye(len(A))
    for k in range(1, 25):
        term = term @ A / 64 / k
        out = out + term
    for _ in range(6):
        out = out @ out
    return out


def hat6(xi):
    out = np.zeros((4, 4))
    out[:3, :3], out[:3, 3] = hat(xi[3:]), xi[:3]
    return out


@ref("so3_hat")
def _(omega):
    return hat(omega)


@ref("se3_hat")
def _(xi):
    return hat6(xi)


@ref("so3_exp")
def _(omega):
    return expm(hat(omega))


@ref("se3_exp")
def _(xi):
    return expm(hat6(xi))


@ref("solve_linear_system")
def _(A, b, damp=1e-8):
    return np.linalg.solve(A.T @ A + float(damp) * np.eye(A.shape[1]), A.T @ b)


def nearest(src, tgt):
    d = ((src[:, None] - tgt[None]) ** 2).sum(-1)
    s = np.sort(d, 1)
    return d.argmin(1), s[:, 0], (s[:, 1] - s[:, 0]).min()


def linear_system(src_pc, tgt_pc, tgt_normals, dist_thresh=None):
    i, d, margin = nearest(src_pc[0], tgt_pc[0])
    if margin < 1e-4 or (dist_thresh is not None and np.abs(d - dist_thresh).min() < 1e-4):
        return None  # a close call
    keep = np.ones(len(d), bool) if dist_thresh is None else d < dist_thresh
    i, s = i[keep], src_pc[0][keep]
    n = tgt_normals[0][i]
    return [np.concatenate([n, np.cross(s, n)], 1), ((tgt_pc[0][i] - s) * n).sum(1, keepdims=True), i]


@ref("gauss_newton_solve")
def _(**a):
    return linear_system(**a)


def aligned(src_pc, tgt_pc, tgt_normals, initial_transform, numiters, damp, dist_thresh, step):
    X = np.eye(4) if initial_transform is None else initial_transform
    src, i = moved(src_pc[0], X), None
    for _ in range(numiters):
        now = linear_system(src[None], tgt_pc, tgt_normals, dist_thresh)
        if now is None:
            return None
        A, b, i = now
        xi = np.linalg.solve(A.T @ A + damp * np.eye(6), A.T @ b)[:, 0]
        ahead = linear_system(moved(src, expm(hat6(xi)))[None], tgt_pc, tgt_normals, dist_thresh)
        if ahead is None:
            return None
        xi, damp = step(xi, damp, (b ** 2).sum(), (ahead[1] ** 2).sum())
        if xi is None:
            return None
        src, X = moved(src, expm(hat6(xi))), expm(hat6(xi)) @ X
    return [X, i]


@ref("point_to_plane_ICP")
def _(src_pc, tgt_pc, tgt_normals, initial_transform=None, numiters=20, damp=1e-8, dist_thresh=None):
    def step(xi, damp, err, new):
        if abs(new - err) < 1e-3 * err + 1e-6 and np.linalg.norm(xi) > 1e-5:
            return None, damp  # a close call
        return (xi, damp / 2) if new < err else (0 * xi, damp * 2)

    return aligned(src_pc, tgt_pc, tgt_normals, initial_transform, numiters, damp, dist_thresh, step)


@ref("point_to_plane_gradICP")
def _(src_pc, tgt_pc, tgt_normals, initial_transform=None, numiters=20, damp=1e-8, dist_thresh=None, lambda_max=2.0, B=1.0, B2=1.0, nu=200.0):
    def step(xi, damp, err, new):
        d = np.clip(new - err, -70, 70)
        low = 1 / lambda_max
        return xi / (1 + np.exp(-B2 * d)) ** (1 / nu), damp * (low + (lambda_max - low) / (1 + np.exp(-B * d)))

    return aligned(src_pc, tgt_pc, tgt_normals, initial_transform, numiters, damp, dist_thresh, step)


@ref("get_alpha")
def _(points, sigma, dim=-1, keepdim=False, eps=1e-7):
    return np.clip(np.exp(-(points ** 2).sum(dim, keepdims=keepdim) / (2 * float(sigma) ** 2)), eps, 1.01)


@ref("are_points_close")
def _(tensor1, tensor2, dist_th, dim=-1):
    d = np.linalg.norm(tensor1 - tensor2, axis=dim)
    return np.where(np.abs(d - dist_th) < 1e-4, np.nan, d < dist_th)


@ref("are_normals_similar")
def _(tensor1, tensor2, dot_th, dim=-1):
    d = (tensor1 * tensor2).sum(dim)
    return np.where(np.abs(d - dot_th) < 1e-4, np.nan, d > dot_th)


@ref("list_to_padded")
def _(x, pad_size=None, pad_value=0.0, equisized=False):
    n = pad_size or (max(len(y) for y in x), max(y.shape[1] for y in x))
    out = np.full((len(x),) + tuple(n), pad_value, float)
    for o, y in zip(out, x):
        o[: len(y), : y.shape[1]] = y
    return out


@ref("padded_to_list")
def _(x, split_size=None):
    if split_size is None:
        return list(x)
    return [y[: s] if isinstance(s, int) else y[: s[0], : s[1]] for y, s in zip(x, split_size)]


@ref("normalize_image")
def _(rgb):
    return rgb / 255.0


@ref("channels_first")
def _(rgb):
    return np.moveaxis(rgb, -1, -3)


@ref("scale_intrinsics")
def _(intrinsics, h_ratio, w_ratio):
    out = intrinsics.astype(float)
    out[..., 0, :3] *= w_ratio
    out[..., 1, :3] *= h_ratio
    return out


@ref("pointquaternion_to_homogeneous")
def _(pointquaternions, eps=1e-12):
    return each(lambda p: T4(rotation_of(p[3:]), p[:3]), pointquaternions.astype(float), 1)


@ref("transform44")
def _(l):
    q = np.array(l[4:8])
    return T4(rotation_of(q) if np.linalg.norm(q) > 1e-6 else np.eye(3), np.array(l[1:4]))


@ref("poses_to_transforms")
def _(poses):
    return [np.eye(4)] + [inverse(poses[i - 1]) @ poses[i] for i in range(1, len(poses))]


@ref("create_label_image")
def _(prediction, color_palette):
    colors = list(color_palette.values()) if isinstance(color_palette, dict) else list(color_palette)
    return np.array(colors)[prediction]


@ref("associate")
def _(first_dict, second_dict, offset, max_difference):
    pairs = sorted((abs(float(a) - float(b) - offset), a, b) for a in first_dict for b in second_dict)
    if any(abs(p[0] - max_difference) < 1e-6 for p in pairs):
        return None  # a close call
    pairs = [p for p in pairs if p[0] < max_difference]
    if any(abs(p[0] - q[0]) < 1e-6 for p, q in zip(pairs, pairs[1:])):
        return None  # a close call
    out = []
    for _, a, b in pairs:
        if all(a != x and b != y for x, y in out):
            out.append((a, b))
    return sorted(out, key=lambda p: float(p[0]))


# ---------------------------------------------------------------- comparison


def plain(x):
    """Arguments as plain numpy values (float64 where they are floating)."""
    if type(x).__name__ == "Tensor":
        x = x.detach().numpy()
    if isinstance(x, np.ndarray):
        return x.astype(np.float64) if x.dtype.kind == "f" else x.astype(np.int64) if x.dtype.kind in "iu" else x
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


LOOSE = {"se3_exp": 3e-4, "solve_linear_system": 3e-4, "point_to_plane_ICP": 1e-4, "point_to_plane_gradICP": 1e-4}  # cancellation, normal equations


def judged(name, got, want):
    """Why the value of the named function is not what its reference says, or None."""
    return differs(got, want, LOOSE.get(name, 2e-5))


def differs(got, want, tol, at="result"):
    """Why `got` is not `want`, or None; `tol` is relative to the largest expected number (or one)."""
    if want is None:
        return None
    if isinstance(want, list):
        if len(got) != len(want):
            return "%s has %d items instead of %d" % (at, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            d = differs(g, w, tol, "%s[%d]" % (at, i))
            if d:
                return d
        return None
    if not isinstance(want, np.ndarray):
        if isinstance(want, tuple):
            got = tuple(got)
        return None if got == want else "%s is %r instead of %r" % (at, got, want)
    g = plain(got)
    if np.shape(g) != want.shape:
        return "%s has shape %s instead of %s" % (at, list(np.shape(g)), list(want.shape))
    w = want.astype(float)
    size = max(1.0, float(np.nanmax(np.abs(w)))) if w.size and not np.isnan(w).all() else 1.0
    bad = ~(np.abs(g.astype(float) - w) <= tol * size) & ~np.isnan(w)
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        return "%s%s is %r instead of %r" % (at, list(i), float(g[i]), float(w[i]))
    return None
