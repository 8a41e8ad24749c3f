"""P02: the helper functions keep no state and leave their arguments alone."""
import collections
import contextlib
import copy
import gc
import hashlib
import importlib

import numpy as np
import torch

from .. import core, scene, sched
from ..core import Discard, Property, SimCrash
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..tools import npr, rigid, rotation
from .helper_ref import REF, judged, plain

REG = collections.OrderedDict()  # name: (module, function, arguments, smooth)


def helper(path, smooth=True):
    def deco(fn):
        mod, name = path.rsplit(".", 1)
        REG[name if name not in REG else path] = (mod, name, fn, smooth)
        return fn

    return deco


def T(a):
    return torch.tensor(np.asarray(a), dtype=torch.float32)


def turn(rs):
    """A rotation matrix: any, or one at the edge of what formulas for rotations handle (none, tiny, a quarter, a half)."""
    k = rs.randint(8)
    if k > 3:
        return rotation(rs)
    if k == 0:
        return np.eye(3)
    if k == 1:
        return rotation(rs, 10.0 ** rs.randint(-7, -1))
    M = np.eye(3)[rs.permutation(3)] * rs.choice([-1.0, 1.0], size=3)  # quarters and halves about the axes
    return M * np.sign(np.linalg.det(M))


def pose(rs):
    X = rigid(rs, trans=[1.0, 1.0, 30.0, 0.0][rs.randint(4)])
    X[:3, :3] = turn(rs)
    return X


def rigids(rs, n):
    return np.stack([pose(rs) for _ in range(n)])


def sheared(rs, X):
    X = X.copy()
    X[..., :3, :3] = X[..., :3, :3] @ (np.diag(rs.uniform(0.5, 2, 3) if rs.randint(2) else np.ones(3)) + np.triu(rs.uniform(-0.3, 0.3, (3, 3)), 1))
    return X


def quaternions(rs, shape):
    """Not of length one: any, and none, tiny, half and whole turns, in both signs."""
    q = rs.normal(size=shape + (4,))
    for i in np.ndindex(*shape):
        k = rs.randint(8)
        if k == 0:
            q[i] = [0, 0, 0, 1]
        elif k == 1:
            q[i][3] = 0
        elif k == 2:
            q[i] = np.eye(4)[rs.randint(4)]
        elif k == 3:
            q[i][:3] *= 10.0 ** rs.randint(-6, 0)
        q[i] *= rs.choice([-1.0, 1.0]) * rs.uniform(0.3, 3)
    return q


def twist(rs, n, w):
    """A rotation vector, after a translation when n is 6: tiny, none, up to several turns, about an axis."""
    d = rs.normal(size=n)
    d[-3:] /= np.linalg.norm(d[-3:])
    if rs.randint(3) == 0:
        d[-3:] = np.eye(3)[rs.randint(3)] * rs.choice([-1.0, 1.0])
    d[-3:] *= [rs.uniform(0, np.pi), 10.0 ** rs.uniform(-9, -1), 0, rs.uniform(np.pi, 10), rs.choice([np.pi, np.pi / 2, 2 * np.pi]), 10.0 ** rs.uniform(-4, 0)][w]
    return d


def camera(rs, n=4):
    K = np.eye(n)
    K[0, 0], K[1, 1], K[0, 2], K[1, 2] = rs.uniform(5, 20), rs.uniform(5, 20), rs.uniform(2, 5), rs.uniform(2, 5)
    return K


def points_of(rs, w):
    """Points (w+1 dims), some at or near infinity when homogeneous."""
    shape = [(5,), (2, 5), (2, 3, 4)][w % 3]
    p = rs.uniform(-2, 2, shape + (3,))
    p[..., 2] = np.abs(p[..., 2]) + 0.3
    return p


GEO, PRO, SE3 = "gradslam.geometry.geometryutils.", "gradslam.geometry.projutils.", "gradslam.geometry.se3utils."


@helper(GEO + "homogenize_points")
@helper(PRO + "homogenize_points")
def _(rs, w):
    return {"pts": T(points_of(rs, w)), "_batch": ["pts"] if w % 3 else []}


@helper(GEO + "unhomogenize_points")
@helper(PRO + "unhomogenize_points")
def _(rs, w):
    p = np.concatenate([points_of(rs, w), rs.choice([1.0, 2.0, -0.5, 0.0, 1e-9], size=points_of(rs, w).shape[:-1] + (1,))], -1)
    return {"pts": T(p), **({"eps": 1e-4} if w % 2 else {}), "_batch": ["pts"] if w % 3 else []}


@helper(GEO + "quaternion_to_axisangle")
def _(rs, w):
    q = quaternions(rs, [(), (3,), (2, 3)][w % 3])
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    return {"quat": T(q), "_batch": ["quat"] if q.ndim > 1 else [], "_one": True}


@helper(GEO + "normalize_quaternion")
def _(rs, w):
    return {"quaternion": T(quaternions(rs, [(), (3,), (2, 3)][w % 3]) * (0 if w == 5 else 1)), "_batch": ["quaternion"] if w % 3 else [], "_one": True}


@helper(GEO + "quaternion_to_rotation_matrix")
def _(rs, w):
    return {"quaternion": T(quaternions(rs, [(), (3,)][w % 2])), "_batch": ["quaternion"] if w % 2 else [], "_one": True}


@helper(GEO + "inverse_transfom_3d")
def _(rs, w):
    return {"trans": T(rigids(rs, 1 + w // 2) if w % 2 else pose(rs)), "_batch": ["trans"] if w % 2 else [], "_one": True}


@helper(GEO + "compose_transforms_3d")
def _(rs, w):
    f = (lambda: T(rigids(rs, 1 + w // 2))) if w % 2 else (lambda: T(pose(rs)))
    return {"trans1": f(), "trans2": f(), "_batch": ["trans1", "trans2"] if w % 2 else [], "_one": True}


@helper(GEO + "relative_transform_3d")
def _(rs, w):
    f = (lambda: T(rigids(rs, 1 + w // 2))) if w % 2 else (lambda: T(pose(rs)))
    return {"trans_01": f(), "trans_02": f(), "_batch": ["trans_01", "trans_02"] if w % 2 else [], "_one": True}


@helper(GEO + "relative_transformation")
def _(rs, w):
    f = (lambda: T(rigids(rs, 1 + w // 2))) if w % 2 else (lambda: T(pose(rs)))
    if w < 3 and rs.randint(2):  # not rotations
        f = (lambda: T(sheared(rs, rigids(rs, 1 + w // 2)))) if w % 2 else (lambda: T(sheared(rs, pose(rs))))
    return {"trans_01": f(), "trans_02": f(), **({"orthogonal_rotations": True} if w >= 3 else {}), "_batch": ["trans_01", "trans_02"] if w % 2 else [], "_one": True}


@helper(GEO + "transform_pts_3d")
def _(rs, w):
    p = rs.uniform(-2, 2, [(5, 3), (2, 5, 3), (1, 2, 3, 3)][w % 3])
    if w >= 3:
        p = np.concatenate([p, np.ones(p.shape[:-1] + (1,))], -1)
    return {"pts_b": T(p), "t_ab": T(pose(rs)), "_batch": ["pts_b"] if w % 3 else []}


@helper(GEO + "transform_pts_nd_KF")
def _(rs, w):
    return {"pts": T(rs.uniform(-2, 2, (2, 5, 3))), "tform": T(rigids(rs, 2)), "_batch": ["pts", "tform"]}


@helper(GEO + "normalize_pixel_coords")
def _(rs, w):
    return {"pixel_coords": T(rs.uniform(0, 6, (2, 4, 2))), "height": 7 + w, "width": 9}


@helper(GEO + "unnormalize_pixel_coords")
def _(rs, w):
    return {"pixel_coords_norm": T(rs.uniform(-1, 1, (2, 4, 2))), "height": 7, "width": 9 + w}


@helper(GEO + "create_meshgrid")
def _(rs, w):
    return {"height": int(rs.randint(2, 6)), "width": int(rs.randint(2, 6)), **({"normalized_coords": bool(w % 3 == 1)} if w % 3 else {})}


@helper(GEO + "cam2pixel")
def _(rs, w):
    p = rs.uniform(0.5, 2, (1, 3, 4, 3))
    if w % 2:
        p[0, 0, 0, 2] = 0
    p = p[0] if w >= 4 else p
    return {"cam_coords_src": T(p), "dst_proj_src": T(camera(rs) @ (np.eye(4) if w % 2 else rigid(rs, 0.1, 0.1)))}


@helper(GEO + "cam2pixel_KF")
def _(rs, w):
    p = rs.uniform(0.5, 2, (2, 4, 3))
    if w >= 4:  # one picture, one matrix
        return {"cam_coords_src": T(p), "P": T(camera(rs))}
    return {"cam_coords_src": T(p), "P": T(np.stack([camera(rs), camera(rs)])), "_batch": ["cam_coords_src", "P"]}


@helper(GEO + "pixel2cam")
def _(rs, w):
    d, p = rs.uniform(0.5, 3, (1 + w % 2, 1, 3, 4)), rs.uniform(0, 5, (1 + w % 2, 3, 4, 3))
    return {"depth": T(d[0, 0] if w >= 4 else d), "intrinsics_inv": T(np.linalg.inv(camera(rs))), "pixel_coords": T(p[0] if w >= 4 else p)}


@helper(GEO + "transform_pointcloud")
def _(rs, w):
    return {"pointcloud": T(rs.uniform(-2, 2, (5 if w % 2 else 1, 3))), "transform": T(pose(rs))}


@helper(GEO + "transform_normals")
def _(rs, w):
    n = rs.normal(size=(5 if w % 2 else 1, 3))
    return {"normals": T(n / np.linalg.norm(n, axis=-1, keepdims=True)), "transform": T(pose(rs))}


@helper(PRO + "project_points")
def _(rs, w):
    p = points_of(rs, w)
    if w >= 3:
        p = np.concatenate([p, np.ones(p.shape[:-1] + (1,))], -1)
    if w % 2 and p.ndim > 2:
        p[0, 0, 2] = 0
    n = p.shape[0] if p.ndim == 3 and w % 2 == 0 or w == 1 else 0
    f = lambda: camera(rs) @ (rigid(rs, 0.3, 0.2) if w in (0, 3) else np.eye(4))
    M = np.stack([f() for _ in range(n)]) if n else f()
    if p.ndim == 4 and rs.randint(2):  # a matrix per row, or per picture
        M = np.stack([np.stack([f() for _ in range(p.shape[1])]) for _ in range(2)]) if rs.randint(2) else np.stack([[f()] for _ in range(2)])
        n = 2
    return {"cam_coords": T(p), "proj_mat": T(M), **({"eps": 1e-3} if w == 4 else {}), "_batch": ["cam_coords"] + ["proj_mat"] * bool(n) if p.ndim > 2 else []}


@helper(PRO + "unproject_points")
def _(rs, w):
    p = rs.uniform(0, 6, [(5, 2), (2, 5, 2), (2, 3, 4, 2)][w % 3])
    d = rs.uniform(0, 3, p.shape[:-1])
    if w >= 3:
        p = np.concatenate([p, np.ones(p.shape[:-1] + (1,))], -1)
    n = p.shape[0] if p.ndim == 3 and w % 2 == 0 or w == 1 else 0
    f = lambda: np.linalg.inv(camera(rs, 3))
    M = np.stack([f() for _ in range(n)]) if n else f()
    if p.ndim == 4 and rs.randint(2):  # a matrix per row, or per picture
        M = np.stack([np.stack([f() for _ in range(p.shape[1])]) for _ in range(2)]) if rs.randint(2) else np.stack([[f()] for _ in range(2)])
        n = 2
    return {"pixel_coords": T(p), "intrinsics_inv": T(M), "depths": T(d), "_batch": ["pixel_coords", "depths"] + ["intrinsics_inv"] * bool(n) if p.ndim > 2 else []}


@helper(PRO + "inverse_intrinsics")
def _(rs, w):
    n = 4 if w % 2 else 3
    return {"K": T(np.stack([camera(rs, n), camera(rs, n)]) if w >= 3 else camera(rs, n)), **({"eps": 1e-2} if w == 2 else {}), "_batch": ["K"] if w >= 3 else [], "_one": True}


@helper(SE3 + "so3_hat")
def _(rs, w):
    return {"omega": T(twist(rs, 3, w))}


@helper(SE3 + "so3_exp")
def _(rs, w):
    return {"omega": T(twist(rs, 3, w))}


@helper(SE3 + "se3_hat")
def _(rs, w):
    return {"xi": T(twist(rs, 6, w))}


@helper(SE3 + "se3_exp")
def _(rs, w):
    return {"xi": T(twist(rs, 6, w))}


ICP = "gradslam.odometry.icputils."


@helper(ICP + "solve_linear_system", False)
def _(rs, w):
    return {"A": T(rs.normal(size=(12, 6))), "b": T(rs.normal(size=(12, 1))), **({"damp": [1e-8, 1e-3, T(1e-2)][w % 3]} if w >= 3 else {})}


def clouds(rs, n=14):
    tgt = rs.uniform(-1, 1, (1, n, 3))
    nrm = rs.normal(size=tgt.shape)
    nrm /= np.linalg.norm(nrm, axis=-1, keepdims=True)
    X = rigid(rs, 0.05, 0.05)
    return {"src_pc": T((tgt[:, : n - 3] - X[:3, 3]) @ X[:3, :3]), "tgt_pc": T(tgt), "tgt_normals": T(nrm)}


@helper(ICP + "gauss_newton_solve", False)
def _(rs, w):
    return {**clouds(rs), **({"dist_thresh": [0.5, 2][w % 2]} if w >= 3 else {})}


@helper(ICP + "point_to_plane_ICP", False)
def _(rs, w):
    a = {**clouds(rs), "numiters": int(rs.choice([1, 2, 3, 6, 12]))}
    if rs.randint(2):
        a["damp"] = float(rs.choice([1e-8, 1e-2, 1, 30, 1000]))
    if w >= 2:
        a["initial_transform"] = T(rigid(rs, 0.05, 0.05))
    if w >= 4:
        a["dist_thresh"] = 0.7
    return a


@helper(ICP + "point_to_plane_gradICP", False)
def _(rs, w):
    a = {**clouds(rs), "numiters": int(rs.choice([1, 2, 3, 6, 12]))}
    if rs.randint(2):
        a["damp"] = float(rs.choice([1e-8, 1e-2, 1, 30, 1000]))
    if w >= 2:
        a["initial_transform"] = T(rigid(rs, 0.05, 0.05))
    if w >= 4:
        a.update({"dist_thresh": 0.7, "nu": 50.0, "lambda_max": 3})
    return a


FUS = "gradslam.slam.fusionutils."


@helper(FUS + "get_alpha")
def _(rs, w):
    a = {"points": T(rs.uniform(-1, 1, (2, 5, 3))), "sigma": [0.6, 1, T(0.3)][w % 3]}
    if w >= 3:
        a.update({"dim": [-1, 2, 2][w % 3], "keepdim": bool(w % 2)})
    a["_batch"] = ["points"]
    return a


@helper(FUS + "are_points_close", False)
def _(rs, w):
    p = rs.uniform(-1, 1, (2, 5, 3))
    return {"tensor1": T(p), "tensor2": T(p + rs.normal(size=p.shape) * 0.1), "dist_th": [0.1, 1][w % 2], **({"dim": 2} if w == 4 else {}), "_batch": ["tensor1", "tensor2"]}


@helper(FUS + "are_normals_similar", False)
def _(rs, w):
    f = lambda x: x / np.linalg.norm(x, axis=-1, keepdims=True)
    n = rs.normal(size=(2, 5, 3))
    return {"tensor1": T(f(n)), "tensor2": T(f(n + rs.normal(size=n.shape) * 0.2)), "dot_th": [0.9, 0.5][w % 2], **({"dim": -1} if w == 4 else {}), "_batch": ["tensor1", "tensor2"]}


def views(rs, w, L=2, start=0):
    """Consecutive frames of a batch of rooms."""
    from .slam import make_frames

    spec = {"B": 1 + w % 2, "L": L, "H": 6, "W": 8, "seed": int(rs.randint(1 << 30)), "move": 0.02,
            "faults": [[["ok", "dropout", "noise"][rs.randint(3)] if l else "ok" for l in range(L)] for _ in range(1 + w % 2)]}
    f = make_frames(scene.build(spec))
    return f.to_channels_first() if w in (2, 5) else f


def situation(rs, w, pix=True, features=True):
    """A map, the next frame, and where the map's points appear in it."""
    from gradslam.slam import fusionutils as fu
    from gradslam.structures.utils import pointclouds_from_rgbdimages

    f = views(rs, w)
    pc = pointclouds_from_rgbdimages(f[:, 0], global_coordinates=True, filter_missing_depths=True)
    if features:
        pc.features_padded = fu.get_alpha(pc.points_padded, dim=2, keepdim=True, sigma=0.6)
    a = {"pointclouds": pc, "rgbdimages": f[:, 1]}
    if pix:
        a["pc2im_bnhw"] = fu.find_active_map_points(pc, f[:, 1])
    return a


@helper(ICP + "downsample_pointclouds", False)
def _(rs, w):
    a = situation(rs, w)
    del a["rgbdimages"]
    return {**a, "ds_ratio": 1 + w % 3}


@helper(ICP + "downsample_rgbdimages", False)
def _(rs, w):
    return {"rgbdimages": views(rs, w)[:, 0], "ds_ratio": 1 + w % 3}


@helper(FUS + "find_active_map_points", False)
def _(rs, w):
    return situation(rs, w, False)


@helper(FUS + "find_similar_map_points", False)
def _(rs, w):
    return {**situation(rs, w), "dist_th": [0.2, 0.01, 0.05, 0.1, 0.02, 1][w], "dot_th": [0.8, 0.5, 0.95][w % 3]}


@helper(FUS + "find_best_unique_correspondences", False)
def _(rs, w):
    return situation(rs, w)


@helper(FUS + "find_correspondences", False)
def _(rs, w):
    return {**situation(rs, w, False), "dist_th": [0.2, 0.01, 0.05, 0.1, 0.02, 1][w], "dot_th": [0.8, 0.5, 0.95][w % 3]}


@helper(FUS + "fuse_with_map", False)
def _(rs, w):
    a = situation(rs, w, False)
    from gradslam.slam import fusionutils as fu

    return {**a, "pc2im_bnhw": fu.find_correspondences(a["pointclouds"], a["rgbdimages"], [0.2, 0.05][w % 2], 0.8), "sigma": 0.6, **({"inplace": False} if w % 2 else {})}


@helper(FUS + "update_map_aggregate", False)
def _(rs, w):
    return situation(rs, w, False, False)


@helper(FUS + "update_map_fusion", False)
def _(rs, w):
    return {**situation(rs, w, False), "dist_th": [0.2, 0.01, 0.05, 0.1, 0.02, 1][w], "dot_th": [0.8, 0.5, 0.95][w % 3], "sigma": 0.6}


STR = "gradslam.structures.structutils."


@helper(STR + "list_to_padded")
def _(rs, w):
    n = [4, 2, int(rs.choice([0, 1, 5]))] if w % 2 else [3, 3]
    a = {"x": [T(rs.uniform(-1, 1, (k, 3))) for k in n]}
    if w >= 4:
        a["pad_size"] = [6, 4] if w == 4 else (5, 3)
    if w >= 2:
        a["pad_value"] = -1.5
    if not w % 2 and w < 4:
        a["equisized"] = True
    return a


@helper(STR + "padded_to_list")
def _(rs, w):
    return {"x": T(rs.uniform(-1, 1, (3, 5, 3))), **({"split_size": [2, 5, 1] if w % 2 else [(2, 3), (5, 1), (1, 2)]} if w >= 2 else {})}


def picture(rs):
    x = rs.randint(0, 256, (5, 6, 3)).astype(np.uint8)
    if rs.randint(2):
        x[:4] = 0  # most of it dark
    return x


@helper(STR + "numpy_to_plotly_image", False)
def _(rs, w):
    if w % 2:
        return {"img": rs.uniform(0, 3, (5, 6, 1)).astype(np.float32), "is_depth": True, **({"scale": 10} if w >= 3 else {})}
    return {"img": picture(rs), "name": "n%d" % w, "quality": 60 + w}


@helper(STR + "img_to_b64str", False)
def _(rs, w):
    return {"img": picture(rs), **({"quality": 50 + w} if w >= 3 else {})}


@helper("gradslam.structures.utils.pointclouds_from_rgbdimages", False)
def _(rs, w):
    f = views(rs, w)[:, 0]
    return {"rgbdimages": f, **({"global_coordinates": bool(w % 2), "filter_missing_depths": w >= 4} if w >= 2 else {})}


DAT = "gradslam.datasets.datautils."


@helper(DAT + "normalize_image")
def _(rs, w):
    x = rs.randint(0, 256, (2, 4, 5, 3))
    return {"rgb": [x.astype(np.uint8), x.astype(np.float64), T(x), torch.tensor(x), torch.tensor(x, dtype=torch.float64), torch.tensor(x, dtype=torch.uint8)][w]}


@helper(DAT + "channels_first")
def _(rs, w):
    x = rs.randint(0, 256, [(4, 5, 3), (2, 4, 5, 3), (1, 2, 4, 5, 1)][w % 3])
    return {"rgb": T(x) if w >= 3 else x.astype(np.uint8)}


@helper(DAT + "scale_intrinsics")
def _(rs, w):
    n = 4 if w % 2 else 3
    K = np.stack([camera(rs, n), camera(rs, n)]) if w >= 4 else camera(rs, n)
    return {"intrinsics": T(K) if w in (0, 1, 4) else K, "h_ratio": [0.5, 2][w % 2], "w_ratio": [0.25, 1, 3][w % 3],
            "_batch": ["intrinsics"] if w >= 4 else [], "_one": True}


@helper(DAT + "pointquaternion_to_homogeneous")
def _(rs, w):
    p = np.concatenate([rs.uniform(-2, 2, (3, 3)), quaternions(rs, (3,))], -1)
    p = [p, p[0], p.astype(np.float32), p, p[:1], p[0]][w]
    return {"pointquaternions": T(p) if w in (3, 5) else p, **({"eps": 1e-6} if w == 4 else {}), "_batch": ["pointquaternions"] if p.ndim > 1 else [], "_one": True}


@helper(DAT + "poses_to_transforms")
def _(rs, w):
    p = rigids(rs, 4)
    return {"poses": [x for x in p] if w % 2 else p}


@helper(DAT + "create_label_image")
def _(rs, w):
    pal = collections.OrderedDict((("c%d" % i), tuple(int(x) for x in rs.randint(0, 256, 3))) for i in range(4))
    if w >= 3:
        pal = list(pal.values())
    return {"prediction": rs.randint(0, 4, (5, 6)).astype(np.uint8 if w % 2 else np.int64), "color_palette": pal}


TUM = "gradslam.datasets.tumutils."


@helper(TUM + "transform44")
def _(rs, w):
    q = quaternions(rs, ()) * (1e-12 if w == 5 else 1)
    return {"l": tuple([1.5] + list(rs.uniform(-2, 2, 3)) + list(q))}


@helper(TUM + "associate", False)
def _(rs, w):
    st = lambda o: {"%.4f" % x: ["f%d" % i] for i, x in enumerate(np.cumsum(rs.uniform(0.01, 0.05, 8)) + o)}
    return {"first_dict": st(0), "second_dict": st(0.25 if w % 2 else 0.003), "offset": -0.25 if w % 2 else 0.0, "max_difference": [0.02, 0.1][w // 3]}


# ---------------------------------------------------------------- observation


def parts(x, out=None, path=""):
    """Every observable part of a value, as (path, tensor or text)."""
    out = [] if out is None else out
    kind = type(x).__name__
    if torch.is_tensor(x) or isinstance(x, np.ndarray):
        out.append((path, x))
    elif kind == "Pointclouds":
        for a in ("points_list", "normals_list", "colors_list", "features_list"):
            parts(getattr(x, a), out, path + "." + a)
    elif kind == "RGBDImages":
        out.append((path + ".channels_first", x.channels_first))
        for a in ("rgb_image", "depth_image", "intrinsics", "poses"):
            parts(getattr(x, a), out, path + "." + a)
    elif isinstance(x, dict):
        out.append((path, [type(x).__name__, [str(k) for k in x]]))
        for k in x:
            parts(x[k], out, path + "[%s]" % (k,))
    elif isinstance(x, (list, tuple)):
        out.append((path, [kind, len(x)]))
        for i, y in enumerate(x):
            parts(y, out, path + "[%d]" % i)
    elif hasattr(x, "to_json"):
        out.append((path, x.to_json()))
    else:
        out.append((path, [kind, repr(x)]))
    return out


def bits(v):
    if torch.is_tensor(v):
        d = v.detach()
        return ["tensor", str(v.dtype), list(v.shape), hashlib.md5(d.contiguous().numpy().tobytes()).hexdigest(), [repr(z) for z in d.flatten()[:6].tolist()]]
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), list(v.shape), hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest(), [repr(z) for z in v.flatten()[:6].tolist()]]
    return v


def digest(x):
    return [[p, bits(v)] for p, v in parts(x)]


def tensors(x):
    return [v for _, v in parts(x) if torch.is_tensor(v) or isinstance(v, np.ndarray)]


def whole(v):
    """What lies under a tensor or array: all of its storage, and how it is seen."""
    if torch.is_tensor(v):
        raw = torch.empty(0, dtype=torch.uint8).set_(v.detach().untyped_storage())
        return ["tensor", str(v.dtype), list(v.shape), list(v.stride()), v.requires_grad, hashlib.md5(raw.numpy().tobytes()).hexdigest()]
    b = v if v.base is None or not isinstance(v.base, np.ndarray) else v.base
    return ["array", str(v.dtype), list(v.shape), list(v.strides), hashlib.md5(b.tobytes()).hexdigest()]


OBJECTS = ("Pointclouds", "RGBDImages")


def state(args):
    """Everything a call could change in its arguments."""
    out = []
    for k in sorted(args):
        if type(args[k]).__name__ in OBJECTS:
            out.append([k, digest(args[k])])
        else:
            out.append([k, [[p, whole(v) if torch.is_tensor(v) or isinstance(v, np.ndarray) else v] for p, v in parts(args[k])]])
    return out


def lay_out(x, how):
    """The same values stored otherwise."""
    if isinstance(x, list) and x and torch.is_tensor(x[0]):
        return [lay_out(y, how) for y in x]
    if torch.is_tensor(x) and x.dim():
        if how == "window":
            big = torch.full([s + 3 for s in x.shape], 7.0).to(x.dtype)
            v = big[tuple(slice(1, 1 + s) for s in x.shape)]
        elif how == "flipped":
            v = torch.empty(list(x.shape)[::-1], dtype=x.dtype).permute(*range(x.dim() - 1, -1, -1))
        else:
            return x
        v.copy_(x)
        return v
    if isinstance(x, np.ndarray):
        if how == "window":
            v = np.full([s + 3 for s in x.shape], 7).astype(x.dtype)[tuple(slice(1, 1 + s) for s in x.shape)]
        elif how == "flipped":
            v = np.empty(x.shape, x.dtype, order="F")
        else:
            return x
        v[...] = x
        return v
    return x


def members(out, b, keep):
    """Member b of a batched result."""
    if torch.is_tensor(out) or isinstance(out, np.ndarray):
        return out[b:b + 1] if keep else out[b]
    return type(out)(members(x, b, keep) for x in out)


def lenient(a, b):
    """Equal up to rounding (the same computation on differently stored arguments)."""
    if [p for p, _ in a] != [p for p, _ in b]:
        return False
    for (_, x), (_, y) in zip(a, b):
        if isinstance(x, list) and x and x[0] in ("tensor", "array"):
            if x[:3] != y[:3] or not np.allclose([{"True": 1.0, "False": 0.0}.get(z) if z in ("True", "False") else float(z) for z in x[4]], [{"True": 1.0, "False": 0.0}.get(z) if z in ("True", "False") else float(z) for z in y[4]], rtol=1e-3, atol=1e-4, equal_nan=True):
                return False
        elif x != y:
            return False
    return True


def widened(x):
    if torch.is_tensor(x) and x.is_floating_point():
        return x.double()
    if isinstance(x, np.ndarray) and x.dtype == np.float32:
        return x.astype(np.float64)
    return [widened(y) for y in x] if isinstance(x, list) else x


BAD = [None, "text", 3.5, "vector", "wider", "list"]


def spoil(v, how):
    if how == "vector":
        return torch.zeros(3)
    if how == "wider":
        return torch.cat([v, v], -1) if torch.is_tensor(v) and v.dim() else {}
    return [] if how == "list" else how


class Helpers(Property):
    """P02: a helper function's result follows from its arguments alone, and the arguments stay as they were."""

    id = "P02"
    quick_runs = 20000
    thorough_runs = 2000000
    quick_wall = 90
    list_fields = ("ops",)
    rule = ("one run = 1-4 helper calls with drawn arguments (values, storage, gradients recorded, refused ones), each made alone in a process of its own and "
            "then several times in one process: again with the same arguments, with arguments overwritten in place, after earlier results were scribbled over, "
            "by threads under a drawn schedule, and with attempts that run out of memory or are interrupted in between; every result equals the one made "
            "alone bit for bit and no call changes its arguments; the value made alone is compared with a numpy model of the documented one; non-trivial = a fault fired or a preemption happened; distinct by calls, faults and schedule")
    real = ["gradslam.geometry", "gradslam.odometry.icputils", "gradslam.slam.fusionutils", "gradslam.structures.structutils", "gradslam.structures.utils",
            "gradslam.datasets.datautils", "gradslam.datasets.tumutils"]
    stubs = ["the thread schedule", "the allocator's outcome"]
    assumptions = ["a result may share storage with an argument where the function only rearranges it"]
    expected_probes = ("again", "altered-in-place", "scribbled", "failed-call", "interrupted-call", "fault-absorbed", "threads", "shared-arguments", "refused",
                       "gradients", "stored-otherwise", "members", "modelled")
    run_wall = 300

    def before_batch(self):
        import sympy  # noqa: F401

        for n in REG:
            importlib.import_module(REG[n][0])
        from . import slam  # noqa: F401

        cv = importlib.import_module("cv2")
        cv.setNumThreads(1)
        if hasattr(cv, "setLogLevel"):
            cv.setLogLevel(2)  # errors only
        gc.freeze()

    def generate(self, rng, tier):
        names = list(REG)
        main = names[rng.index % len(names)]  # every function gets its turn
        calls = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            c = {"f": main if not calls or rng.random() < 0.45 else rng.choice(names), "w": rng.randrange(6), "seed": rng.randrange(1 << 30),
                 "store": rng.choice(["plain", "plain", "window", "flipped"]), "grad": rng.random() < 0.3,
                 "split": rng.random() < 0.3, "f64": rng.random() < 0.15}
            if calls and c["f"] == calls[0]["f"] and rng.random() < 0.6:
                c["w"] = calls[0]["w"]  # other values of the same shapes
            if rng.random() < 0.1:
                c["bad"] = [round(rng.random(), 3), rng.choice(BAD)]
            calls.append(c)
        ops = []
        for _ in range(rng.randint(2, 8)):
            i = rng.randrange(len(calls))
            k = rng.choice(["call", "again", "again", "alter", "alter", "scribble", "fault", "fault", "threads"])
            if k == "threads":
                i = 0
            o = {"k": k, "c": i}
            if k == "alter":
                o["seed"] = rng.randrange(1 << 30)
            elif k == "fault":
                o.update({"how": rng.choice(["alloc", "crash"]), "u": round(rng.random(), 6), "then": rng.random() < 0.6})
            elif k == "threads":
                o.update({"with": [rng.randrange(len(calls)) for _ in range(rng.choice([1, 1, 2]))], "shared": rng.random() < 0.5, "sched": None})
                o["sched"] = sched.draw(rng, 1 + len(o["with"]))
            ops.append(o)
        return {"calls": calls, "ops": ops}

    def shrinks(self, plan):
        for i, c in enumerate(plan["calls"]):
            if c["store"] != "plain":
                yield dict(plan, calls=plan["calls"][:i] + [dict(c, store="plain")] + plan["calls"][i + 1:])
            if c["f64"]:
                yield dict(plan, calls=plan["calls"][:i] + [dict(c, f64=False)] + plan["calls"][i + 1:])
            if c["split"]:
                yield dict(plan, calls=plan["calls"][:i] + [dict(c, split=False)] + plan["calls"][i + 1:])
            if c["grad"]:
                yield dict(plan, calls=plan["calls"][:i] + [dict(c, grad=False)] + plan["calls"][i + 1:])

    # -- one call
    def arguments(self, c, seed=None):
        rs = npr("helper", c["f"], c["w"], c["seed"] if seed is None else seed)
        a = {k: v for k, v in REG[c["f"]][2](rs, c["w"]).items() if k[0] != "_"}
        if "bad" in c:
            k = sorted(set(a) - {"inplace"})  # a text there would be true
            k = k[int(c["bad"][0] * len(k))]
            a[k] = spoil(a[k], c["bad"][1])
        for k in a:
            if c["f64"]:  # wider numbers, which a function may refuse
                a[k] = widened(a[k])
            a[k] = lay_out(a[k], c["store"])
            if c["grad"] and torch.is_tensor(a[k]) and a[k].is_floating_point():
                a[k].requires_grad_(True)
        return a

    def outcome(self, c, args, keep=None, mode=None):
        """What a call gives: its value and its gradients, or the error it raises; crashes and injected faults pass through."""
        fn = getattr(importlib.import_module(REG[c["f"]][0]), REG[c["f"]][1])
        try:
            with mode or contextlib.nullcontext():
                out = fn(**args)
        except SimCrash:
            raise
        except Exception as e:
            if is_injected_alloc(e) or isinstance(e, sched.SimDeadlock):
                raise
            return ["raised", type(e).__name__]
        res = ["value", digest(out)]
        if c["grad"]:
            res.append(self.gradients(args, out))
        if keep is not None:
            keep.append((c["f"], res[1], out))
        return res

    def gradients(self, args, out):
        leaves = [a for a in args.values() if torch.is_tensor(a) and a.requires_grad]
        total = [(t.double() * torch.linspace(0.5, 1.5, t.numel(), dtype=torch.float64).reshape(t.shape)).sum()
                 for t in tensors(out) if torch.is_tensor(t) and t.requires_grad]
        if not leaves or not total:
            return None
        try:
            g = torch.autograd.grad(sum(total), leaves, allow_unused=True)
        except RuntimeError as e:
            return ["raised", type(e).__name__]
        return digest(list(g))

    def alone(self, c, seed=None, wrong=None):
        def go():
            torch.set_num_threads(1)
            args, kept = self.arguments(c, seed), []
            model = None if "bad" in c or REG[c["f"]][1] not in REF else REF[REG[c["f"]][1]](**{k: plain(copy.deepcopy(v) if isinstance(v, (list, dict)) else v) for k, v in args.items()})
            got = self.outcome(c, args, kept)
            return got, judged(REG[c["f"]][1], kept[0][2], model) if kept else None, model is not None

        r = core.in_child(go, 120)
        if r is None:
            raise Discard("a call does not finish on its own")
        if wrong is not None:
            wrong.append((c, r[1], r[2] and r[0][0] == "value"))
        return r[0]

    def members_differ(self, c, seed):
        """A member of a batch that comes out otherwise than on its own, or None."""
        c = dict(c, grad=False)

        def go():
            torch.set_num_threads(1)
            a = self.arguments(c, seed)
            spec = REG[c["f"]][2](npr("helper", c["f"], c["w"], seed), c["w"])
            names, fn = spec["_batch"], getattr(importlib.import_module(REG[c["f"]][0]), REG[c["f"]][1])
            if len(set(len(a[n]) for n in names)) != 1:
                return None
            got = fn(**a)
            for b in range(len(a[names[0]])):
                for keep in ([True, False] if spec.get("_one") else [True]):
                    one = fn(**{k: (v[b:b + 1] if keep else v[b]) if k in names else v for k, v in a.items()})
                    x, y = digest(members(got, b, keep)), digest(one)
                    if not lenient(x, y):
                        return "member %d gives %s in the batch, %s %s" % (b, core.short(x, 400), core.short(y, 400), "as a batch of one" if keep else "on its own")
            return ""

        return core.in_child(go, 120)

    # -- all of it in one process
    def session(self, plan):
        torch.set_num_threads(1)
        calls, out, live, results = plan["calls"], [], {}, []
        run = core.Run(True)

        def note(op, c, want, fn, args, more=()):
            s0 = state(args)
            try:
                got = fn()
            except SimCrash:
                got = ["crashed"]
            except Exception as e:
                if not is_injected_alloc(e):
                    raise
                got = ["out of memory"]
            s1 = state(args)
            changed = [a[0] for a, b in zip(s0, s1) if a != b]
            out.append({"op": op, "f": calls[c]["f"], "want": want, "got": got, "changed": changed, "more": list(more)})
            return got

        def intact(op):
            for f, was, r in results:
                now = digest(r)
                if now != was:
                    out.append({"op": op, "f": f, "want": None, "was": was, "got": now, "changed": [], "more": []})
                    del results[:]
                    return

        op = "the end"
        for n, o in enumerate(plan["ops"]):
            intact(op)
            i = o["c"] % len(calls)
            c = calls[i]
            op = "action %d (%s)" % (n, o["k"])
            if o["k"] == "scribble":
                for t in [t for _, _, r in results for t in tensors(r)]:
                    if torch.is_tensor(t):
                        with torch.no_grad():
                            t.fill_(3) if t.dtype != torch.bool else t.fill_(True)
                    elif t.flags.writeable:
                        t[...] = 3
                for _, _, r in results:
                    if isinstance(r, (list, dict)):
                        r.clear()
                out.append({"op": op, "more": ["scribbled"] if results else []})
                live.clear()
                del results[:]
            elif o["k"] == "call" or (o["k"] == "again" and i not in live):
                live[i] = self.arguments(c)
                note(op, i, ["call", i], lambda: self.outcome(c, live[i], results), live[i])
            elif o["k"] == "again":
                note(op, i, ["call", i], lambda: self.outcome(c, live[i], results), live[i], ["again"])
            elif o["k"] == "alter":
                if i not in live:
                    live[i] = self.arguments(c)
                    note(op, i, ["call", i], lambda: self.outcome(c, live[i], results), live[i])
                if "bad" in c:
                    continue
                args, other = live.pop(i), self.arguments(c, o["seed"])
                if self.overwrite(args, other):
                    note(op, i, ["altered", n], lambda: self.outcome(c, args, results), args, ["altered-in-place"])
                del results[:]  # an earlier result may show the altered arguments
            elif o["k"] == "fault":
                spare = self.arguments(c)
                if o["how"] == "alloc":
                    m = alloc_faults(())
                else:
                    m = CrashAt()
                self.outcome(c, spare, None, m)
                if not m.n:
                    continue
                k = int(o["u"] * m.n)
                args = self.arguments(c)
                m = alloc_faults((k,)) if o["how"] == "alloc" else CrashAt(k)
                got = note(op, i, ["call", i], lambda: self.outcome(c, args, None, m), args)
                fired = bool(m.fired)
                out[-1]["more"] = ([o["how"]] if fired else []) + [{"crashed": "interrupted-call", "out of memory": "failed-call"}.get(got[0], "fault-absorbed" if fired else "-")]
                if o["then"]:
                    note(op + ", then", i, ["call", i], lambda: self.outcome(c, args, results), args)
                live[i] = args
            elif o["k"] == "threads":
                who = [i] + [j % len(calls) for j in o["with"]]
                argsets = {}
                mine = []
                for j in who:
                    if o["shared"] and j in argsets:
                        out.append({"op": op, "more": ["shared-arguments"]})
                    if not o["shared"] or j not in argsets:
                        argsets[j] = self.arguments(calls[j])
                    mine.append(argsets[j])
                s0 = [state(a) for a in mine]
                res = sched.Scheduler(o["sched"], run).go([lambda j=j, a=a: self.outcome(calls[j], a, results) for j, a in zip(who, mine)])
                s1 = [state(a) for a in mine]
                for t, (j, (status, val)) in enumerate(zip(who, res)):
                    if status == "error":
                        raise val
                    out.append({"op": "%s, thread %d" % (op, t), "f": calls[j]["f"], "want": ["call", j], "got": val,
                                "changed": [a[0] for a, b in zip(s0[t], s1[t]) if a != b], "more": ["threads"]})
                out[-1]["schedule"] = run.schedule
        intact(op)
        return {"out": out, "stats": dict(run.stats), "nontrivial": run.nontrivial}

    def overwrite(self, args, other):
        """Puts the values of `other` into the very objects of `args`; False if they are of another make."""
        flat = lambda a: [(k, v) for k in sorted(a) for v in (a[k] if isinstance(a[k], list) else [a[k]])]
        x, y = flat(args), flat(other)
        if len(x) != len(y):
            return False
        for (_, a), (_, b) in zip(x, y):
            if type(a).__name__ in OBJECTS or type(a) is not type(b) or (hasattr(a, "shape") and a.shape != b.shape):
                return False
        for k in args:
            if not (torch.is_tensor(args[k]) or isinstance(args[k], (np.ndarray, list))):
                if isinstance(args[k], dict):
                    args[k].clear()
                    args[k].update(other[k])
                else:
                    args[k] = other[k]
        for (_, a), (_, b) in zip(x, y):
            if torch.is_tensor(a):
                with torch.no_grad():
                    a.copy_(b)
            elif isinstance(a, np.ndarray):
                a[...] = b
        for k in args:
            if isinstance(args[k], list) and not any(hasattr(v, "shape") for v in args[k]):
                args[k][:] = other[k]
        return True

    def execute(self, plan, run):
        calls = plan["calls"]
        wrong = []
        want = {("call", i): self.alone(c, None, wrong) for i, c in enumerate(calls)}
        for n, o in enumerate(plan["ops"]):
            if o["k"] == "alter":
                want["altered", n] = self.alone(calls[o["c"] % len(calls)], o["seed"], wrong)
        for c, why, modelled in wrong:
            if modelled:
                run.probe("modelled")
            run.check(not why, "wrong-value", lambda: "%s (variant %d): %s" % (c["f"], c["w"], why))
        for i, c in enumerate(calls):
            run.probe("f-" + c["f"])
            if want["call", i][0] == "raised":
                run.probe("refused")
                run.check("bad" in c or c["f64"], "refused", lambda: "%s raises %s for documented arguments (variant %d)" % (c["f"], want["call", i][1], c["w"]))
            elif c["store"] != "plain" and REG[c["f"]][3] and "bad" not in c:
                plain = self.alone(dict(c, store="plain"))
                run.probe("stored-otherwise")
                run.check(plain[0] == "value" and lenient(plain[1], want["call", i][1]), "depends-on-storage", lambda: "%s gives %s for arguments stored %s, %s for plain ones" % (
                    c["f"], core.short(want["call", i], 400), c["store"], core.short(plain, 400)))
            if c["split"] and "bad" not in c and want["call", i][0] == "value" and REG[c["f"]][2](npr(0), c["w"]).get("_batch"):
                diff = self.members_differ(c, c["seed"])
                if diff is not None:
                    run.probe("members")
                    run.check(not diff, "members-differ", lambda: "%s: %s" % (c["f"], diff))
            if len(want["call", i]) > 2 and want["call", i][2]:
                run.probe("gradients")
        s = core.in_child(lambda: self.session(plan), 200)
        if s is None:
            raise Discard("the calls do not finish together")
        for k, v in s["stats"].items():
            run.stats[k] += v
        run.nontrivial = run.nontrivial or s["nontrivial"]
        run.shape([c["f"] for c in calls], [(o["k"], o["c"]) for o in plan["ops"]])
        for r in s["out"]:
            for m in r["more"]:
                if m == "alloc":
                    run.fault("failed-allocation")
                elif m == "crash":
                    run.fault("interrupted")
                elif m != "-":
                    run.probe(m)
            if "schedule" in r:
                run.shape(r["schedule"])
            if "f" not in r:
                continue
            run.event(r["op"], r["f"], r["got"], r["changed"])
            if r["want"] is None:
                run.check(False, "earlier-result-changed", lambda: "%s changed what an earlier call of %s gave: %s was %s" % (r["op"], r["f"], core.short(r["got"], 500), core.short(r["was"], 500)))
            run.check(not r["changed"], "argument-changed", lambda: "%s: %s changed its argument%s %s" % (r["op"], r["f"], "s" * (len(r["changed"]) > 1), ", ".join(r["changed"])))
            if r["got"][0] not in ("crashed", "out of memory"):
                w = want[tuple(r["want"])]
                run.check(r["got"] == w, "depends-on-history", lambda: "%s: %s gave %s; alone it gives %s" % (r["op"], r["f"], core.short(r["got"], 600), core.short(w, 600)))
            run.state(r["f"], r["op"].split("(")[-1], r["got"][0])


PROPERTIES = [Helpers()]
