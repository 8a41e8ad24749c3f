"""Simulated recordings: sensor clocks, the recorder, and what ends up on disk.

A recording is built from a small JSON spec; every array in it is a pure function of the
spec's seed, so the oracle can recompute what any frame must contain without reading a file.
"""
import os
import shutil
import tempfile

import numpy as np

from . import scene
from .tools import npr, rigid, rotation


class Scratch(object):
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix="dst-rec-", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def quat_of(R):
    """(x, y, z, w) of a rotation matrix, computed the slow and safe way."""
    w, v = np.linalg.eigh(np.array([
        [R[0, 0] - R[1, 1] - R[2, 2], R[1, 0] + R[0, 1], R[2, 0] + R[0, 2], R[2, 1] - R[1, 2]],
        [R[1, 0] + R[0, 1], R[1, 1] - R[0, 0] - R[2, 2], R[2, 1] + R[1, 2], R[0, 2] - R[2, 0]],
        [R[2, 0] + R[0, 2], R[2, 1] + R[1, 2], R[2, 2] - R[0, 0] - R[1, 1], R[1, 0] - R[0, 1]],
        [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3.0)
    return v[:, np.argmax(w)]


def rot_of(q):
    x, y, z, w = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


NYU20 = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]


TUM_K = [[525.0, 0, 319.5, 0], [0, 525.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
ICL_K = [[481.20, 0, 319.5, 0], [0, -480.0, 239.5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def scan_K(spec, s):
    rs = npr("scanK", spec["seed"], s)
    K = np.eye(4)
    K[0, 0], K[1, 1] = np.round(rs.uniform(400, 600, 2), 3)
    K[0, 2], K[1, 2] = np.round(rs.uniform(200, 330, 2), 3)
    return K


def camera(spec, s, W, H):
    """Intrinsics of sequence s for images of that size (recordings state them for 640x480)."""
    K = np.array(TUM_K) if spec["kind"] == "tum" else np.array(ICL_K) if spec["kind"] == "icl" else scan_K(spec, s)
    K[0] *= W / 640.0
    K[1] *= H / 480.0
    return K


DEPTH_SCALE = {"tum": 5000.0, "icl": 5000.0, "scannet": 1000.0}


def room(spec, seq):
    return scene.planes_of(npr("room", spec["seed"], seq))


def room_pose(spec, seq, i):
    """The camera wanders through the room; the room itself is anywhere in the recording's world frame."""
    rs = npr("start", spec["seed"], seq)
    far = rigid(rs, trans=3.0)
    T = np.eye(4)
    T[:3, :3] = rotation(rs, 0.2)
    T[:3, 3] = rs.uniform(-0.3, 0.3, 3)
    for j in range(i):
        rf = npr("move", spec["seed"], seq, j)
        D = np.eye(4)
        D[:3, :3] = rotation(rf, spec["move"])
        D[:3, 3] = rf.uniform(-1, 1, 3) * spec["move"]
        T = T @ D
    return far, T


class Frame(object):
    """One recorded frame: arrays as the camera saw them, and the pose as the file states it."""

    def __init__(self, spec, seq, i):
        if spec.get("room"):
            return self.look(spec, seq, i)
        h, w = spec["h"], spec["w"]
        rs = npr("frame", spec["seed"], seq, i)
        if spec.get("flat"):  # survives any interpolation
            self.rgb = np.broadcast_to(rs.randint(0, 256, size=3), (h, w, 3)).astype(np.uint8)
        else:
            self.rgb = rs.randint(0, 256, size=(h, w, 3)).astype(np.uint8)
        if spec.get("dark"):  # as filmed with the lens covered
            self.rgb = self.rgb // 100
        self.depth = rs.randint(0, 65536, size=(h, w)).astype(np.uint16)
        self.label = rs.randint(0, 41, size=(h, w)).astype(np.uint8)
        T = rigid(rs, trans=3.0)
        q = np.round(quat_of(T[:3, :3]), 5)
        self.quat = q
        self.t = np.round(T[:3, 3], 4)
        self.pose = np.eye(4)
        self.pose[:3, :3] = rot_of(q)
        self.pose[:3, 3] = self.t

    def look(self, spec, seq, i):
        """A view of the simulated room from the pose the recording will state."""
        h, w = spec["h"], spec["w"]
        far, T = room_pose(spec, seq, i)
        P = far @ T
        self.quat, self.t = np.round(quat_of(P[:3, :3]), 5), np.round(P[:3, 3], 4)
        self.pose = np.eye(4)
        self.pose[:3, :3] = rot_of(self.quat)
        self.pose[:3, 3] = self.t
        if spec["kind"] != "tum":
            self.pose = np.round(self.pose, 5)
        back = np.linalg.inv(far)
        rgb, z = scene.render(room(spec, seq), back @ self.pose, camera(spec, seq, w, h), h, w)
        z = np.where(z < 9.9, z, 0)
        rs = npr("sensor", spec["seed"], seq, i)
        what = spec["sensor"][seq][i]
        if what == "dropout":
            z = z * (rs.uniform(size=z.shape) >= 0.3)
        elif what == "occluded":
            z[:, : rs.randint(1, w)] = 0
        elif what == "blackout":
            z, rgb = z * 0, rgb * 0
        self.rgb = rgb.astype(np.uint8)
        self.depth = np.round(z * DEPTH_SCALE[spec["kind"]]).astype(np.uint16)
        self.label = rs.randint(0, 41, size=(h, w)).astype(np.uint8)


def write_png(path, a):
    import cv2

    if a.ndim == 3:
        a = a[:, :, ::-1]
    if not cv2.imwrite(path, np.ascontiguousarray(a)):
        raise IOError(path)


def put(path, text):
    with open(path, "w") as f:
        f.write(text)


# ------------------------------------------------------------------ sensor clocks


def clock(rs, n, period, c):
    """Stamps (seconds) of n events as one sensor's clock reports them, under clock faults."""
    t = np.arange(n) * period + rs.uniform(-1, 1, n) * c.get("jitter", 0.0)
    t = t * (1 + c.get("drift", 0.0)) + c.get("skew", 0.0)
    for at, by in c.get("jumps", []):
        t[int(at * n):] += by
    for at, ln in c.get("stalls", []):  # events of a stalled sensor all arrive when it wakes up
        a = int(at * n)
        b = min(n, a + int(ln))
        if b > a:
            t[a:b] = t[b - 1] + np.arange(b - a) * 1e-4
    return t


def stamp_text(base, t):
    return "%.6f" % (base + t)


def draw_clock(rng, hostile):
    c = {"jitter": rng.choice([0, 0.001, 0.004, 0.012]), "skew": rng.choice([0, 0.003, -0.008, 0.019, 0.5]) if hostile else 0.0}
    if hostile:
        c["drift"] = rng.choice([0, 0, 1e-4, -3e-3, 0.02])
        c["jumps"] = [[round(rng.random(), 3), rng.choice([0.01, -0.03, 0.3, -0.2, 5.0])] for _ in range(rng.choice([0, 0, 1, 2]))]
        c["stalls"] = [[round(rng.random(), 3), rng.randint(2, 5)] for _ in range(rng.choice([0, 0, 1]))]
        c["loss"] = rng.choice([0, 0, 0.1, 0.4])
        c["dup"] = rng.choice([0, 0, 0.1])
        c["reorder"] = rng.choice([0, 0, 0.1, 1.0])
    return c


# ------------------------------------------------------------------ TUM / ICL / ScanNet writers


def tum_name(seq):
    return "rgbd_dataset_freiburg%d_%s" % (1 + seq % 3, "abcdefgh"[(seq * 5) % 8] + str(seq))


def dropped(spec, s, i):
    """What the recorder lost of frame i of sequence s, if anything."""
    for a, b, what in spec.get("drop", []):
        if (a, b) == (s, i):
            return what
    return None


def write_tum(base, spec):
    """Well-synchronised TUM recordings. Returns {sequence name: [record...]}, in time order."""
    out = {}
    for s, n in enumerate(spec["seqs"]):
        name = tum_name(s)
        d = os.path.join(base, name)
        os.makedirs(os.path.join(d, "rgb"))
        os.makedirs(os.path.join(d, "depth"))
        rs = npr("tumclock", spec["seed"], s)
        t0 = spec.get("t0", 1305031102.0)
        head = "# color images\n# file: 'x.bag'\n# timestamp filename\n"
        rl, dl, pl, recs = [], [], [], []
        for i in range(n):
            f = Frame(spec, s, i)
            tr = t0 + i * 0.033 + rs.uniform(0, 0.003)
            td = tr + rs.uniform(-0.004, 0.004)
            tp = td + rs.uniform(-0.003, 0.003)
            r, dd, p = ["%.6f" % x for x in (tr, td, tp)]
            lost = dropped(spec, s, i)
            # depth files have names of their own, so a loader that mixes the two up is seen
            write_png(os.path.join(d, "rgb", r + ".png"), f.rgb)
            write_png(os.path.join(d, "depth", dd + ".png"), f.depth)
            rl.append("%s rgb/%s.png" % (r, r))
            if lost != "depth":
                dl.append("%s depth/%s.png" % (dd, dd))
            if lost == "nan":
                pl.append(p + " nan" * 7)
            elif str(lost).startswith("nan"):
                row = ["%.4f" % v for v in f.t] + ["%.5f" % v for v in f.quat]
                row[int(lost[3:])] = "nan"
                pl.append(p + " " + " ".join(row))
            elif lost == "null":
                pl.append(p + " %.4f %.4f %.4f 0 0 0 0" % tuple(f.t))
            elif lost != "pose":
                pl.append("%s %.4f %.4f %.4f %.5f %.5f %.5f %.5f" % ((p,) + tuple(f.t) + tuple(f.quat)))
            recs.append({"frame": f, "stem": r, "dstem": dd, "stamps": (r, dd, p), "lost": lost})
        put(os.path.join(d, "rgb.txt"), head + "\n".join(rl) + "\n")
        put(os.path.join(d, "depth.txt"), head + "\n".join(dl) + "\n")
        put(os.path.join(d, "groundtruth.txt"), head + "\n".join(pl) + "\n")
        put(os.path.join(d, "accelerometer.txt"), head)
        out[name] = recs
    return out


def icl_pose_text(f):
    return "".join(" ".join("%.5f" % v for v in f.pose[r]) + "\n" for r in range(3)) + "\n"


def icl_name(spec, s):
    return "living_room_traj%d_frei_png" % ((s + spec.get("first", 1)) % 10)


def write_icl(base, spec):
    out = {}
    for s, n in enumerate(spec["seqs"]):
        # trajectory 0 is special-cased by the loader (its recording lacks the last pose)
        num = (s + spec.get("first", 1)) % 10
        name = icl_name(spec, s)
        d = os.path.join(base, name)
        os.makedirs(os.path.join(d, "rgb"))
        os.makedirs(os.path.join(d, "depth"))
        assoc, poses, recs = [], [], []
        for i in range(n):
            f = Frame(spec, s, i)
            f.pose = np.round(f.pose, 5)
            write_png(os.path.join(d, "rgb", "%d.png" % i), f.rgb)
            write_png(os.path.join(d, "depth", "%d.png" % i), f.depth)
            assoc.append("%d depth/%d.png %d rgb/%d.png" % (i, i, i, i))
            poses.append(icl_pose_text(f))
            recs.append({"frame": f, "stem": str(i)})
        if num == 0:
            poses = poses[:-1]
            recs = recs[:-1]
        put(os.path.join(d, "associations.txt"), "\n".join(assoc) + "\n")
        put(os.path.join(d, "livingRoom%dn.gt.sim" % num), "".join(poses))
        out[name] = recs
    return out


def scannet_seq(s, spec):
    if spec.get("alone"):  # every sequence in a scene of its own
        scene = "scene%04d_%02d" % (s + spec.get("first", 0), 0)
        return scene, scene + "-seq_1"
    scene = "scene%04d_%02d" % (s // 2 + spec.get("first", 0), 0)
    return scene, "%s-seq_%d" % (scene, (s % 2) * 9 + 1)


def write_scannet(base, spec):
    """Under base/: scans/ and meta/."""
    out = {}
    scans, meta = os.path.join(base, "scans"), os.path.join(base, "meta")
    os.makedirs(scans)
    os.makedirs(meta)
    for s, n in enumerate(spec["seqs"]):
        scene, seqname = scannet_seq(s, spec)
        d = os.path.join(scans, scene)
        for sub in ("color", "depth", "pose", "label-filt", "intrinsic"):
            os.makedirs(os.path.join(d, sub), exist_ok=True)
        K = scan_K(spec, s)
        kp = "%s/intrinsic/intrinsic_depth%s.txt" % (scene, "" if spec.get("alone") else "_%d" % s)
        put(os.path.join(scans, kp), "".join(" ".join("%.6f" % v for v in r) + "\n" for r in K))
        lines, recs = [], []
        for i in range(n):
            f = Frame(spec, s, i)
            f.pose = np.round(f.pose, 6)
            f.K = K
            st = "%d_%d" % (s, i)
            write_png(os.path.join(d, "color", st + ".png"), f.rgb)
            write_png(os.path.join(d, "depth", st + ".png"), f.depth)
            write_png(os.path.join(d, "label-filt", st + ".png"), f.label)
            put(os.path.join(d, "pose", st + ".txt"), "".join(" ".join("%.6f" % v for v in r) + "\n" for r in f.pose))
            lines.append(" ".join(["color", scene + "/color/%s.png" % st, "depth", scene + "/depth/%s.png" % st,
                                   "pose", scene + "/pose/%s.txt" % st, "label-filt", scene + "/label-filt/%s.png" % st,
                                   "instance-filt", "x", "intrinsic_color", "x", "extrinsic_color", "x", "intrinsic_depth", kp]))
            recs.append({"frame": f, "stem": st})
        put(os.path.join(meta, seqname + ".txt"), "\n".join(lines) + "\n")
        out[seqname] = recs
    return out


WRITERS = {"tum": write_tum, "icl": write_icl, "scannet": write_scannet}


# ------------------------------------------------------------------ what a loader must return


def resized(rng, n):
    """Another size for n rows or columns, where the nearest pixel is beyond dispute."""
    return rng.choice([n, n * 2, n * 3] + ([n // 2] * 2 if n % 2 == 0 else []))


def blend(a, H, W):
    """(lowest, highest) value a pixel of the resized image can have, if it is some mean of the pixels around it."""
    out = []
    for n, N in ((a.shape[0], H), (a.shape[1], W)):
        o = np.arange(N)
        c = (o + 0.5) * n / N - 0.5
        lo = np.clip(np.floor(np.minimum(c, o * n // N)), 0, n - 1).astype(int)
        hi = np.clip(np.ceil(np.maximum(c, (o + 1) * n / N - 1)), 0, n - 1).astype(int)
        out.append(list(zip(lo, hi + 1)))
    cells = [[a[t:b, l:r].reshape(-1, a.shape[-1]) for l, r in out[1]] for t, b in out[0]]
    return (np.array([[f(x, 0) for x in row] for row in cells]).astype(float) for f in (np.min, np.max))


def draw_spec(rng, kind=None, maxseq=3, maxlen=8):
    kind = kind or rng.choice(["tum", "icl", "scannet"])
    flat = rng.random() < 0.25
    h, w = rng.choice([2, 3, 4, 6]), rng.choice([2, 3, 5, 8])
    spec = {"kind": kind, "seqs": [rng.randint(1, maxlen) for _ in range(rng.randint(1, maxseq))], "seed": rng.randrange(1 << 30),
            "h": h, "w": w, "flat": flat, "first": rng.choice([0, 1, 3, 8])}
    if rng.random() < 0.1:
        spec["dark"] = True
    if rng.random() < 0.2:
        spec["where"] = rng.choice(["living_room_traj_sets", "living_room_traj9_frei_png", "rgbd_dataset_freiburg9_all/rgb", "scene0000_01/color", "a b", "run [1]", "x.png", "depth.txt"])
    if rng.random() < 0.1:
        spec["spell"] = rng.choice(["/", "/."])
    if kind == "scannet" and rng.random() < 0.4:
        spec["alone"] = True
    if rng.random() < 0.35:
        ids = sorted(rng.sample(range(len(spec["seqs"])), rng.randint(1, len(spec["seqs"]))))
        rng.shuffle(ids)
        spec["pick"] = {"ids": ids, "how": rng.choice(["tuple", "file", "lines"])}
    if kind == "tum" and rng.random() < 0.3:
        spec["drop"] = [[s, i, rng.choice(["depth", "pose", "nan", "null", "nan%d" % rng.randrange(7)])] for s, n in enumerate(spec["seqs"]) for i in range(n) if rng.random() < 0.3]
    if kind == "tum" and rng.random() < 0.2:
        spec["t0"] = rng.choice([999999999.9, 9.95, 99999.97])  # the number of digits changes during the recording
    opt = {"height": h, "width": w, "channels_first": rng.random() < 0.3, "normalize_color": rng.random() < 0.3}
    if flat or rng.random() < 0.3:
        opt["height"], opt["width"] = resized(rng, h), resized(rng, w)
    if kind == "scannet":
        m = min(spec["seqs"])
        opt["start"] = rng.choice([0, 0, rng.randrange(m)])
        opt["end"] = -1 if rng.random() < 0.6 else rng.randint(opt["start"] + 1, m)
        opt["seg_classes"] = rng.choice(["scannet20", "nyu40"])
        opt["return_labels"] = rng.random() < 0.8
    else:
        opt["seqlen"] = rng.randint(1, 4)
        opt["dilation"] = rng.choice([None, None, 0, 1, 2])
        opt["stride"] = rng.choice([None, None, 1, 2, 3])
        opt["start"] = rng.choice([None, None, 0, 1, 2, 3])
        opt["end"] = None if rng.random() < 0.6 else (opt["start"] or 0) + rng.randint(1, 6)
    for k in ("return_depth", "return_intrinsics", "return_pose", "return_transform"):
        opt[k] = rng.random() < 0.85
    spec["opt"] = opt
    return spec


def long_spec(rng):
    """A recording of many small frames."""
    spec = draw_spec(rng, maxseq=1, maxlen=1)
    for k in ("pick", "drop", "flat", "t0"):
        spec.pop(k, None)
    n = rng.randint(700, 900)
    spec.update(seqs=[n], h=2, w=2)
    spec["opt"].update(height=2, width=2)
    if spec["kind"] == "scannet":
        spec["opt"].update(start=0, end=-1)
    else:
        spec["opt"].update(start=None, end=None, stride=rng.choice([3, 50]), seqlen=rng.randint(2, 5), dilation=rng.choice([None, 0, 30]))
    return spec


def open_dataset(base, spec):
    from gradslam.datasets import ICL, TUM, Scannet

    opt = dict(spec["opt"])
    which, end = None, spec.get("spell", "")
    if "pick" in spec:
        which = tuple(dict.fromkeys(group_name(spec, i) for i in spec["pick"]["ids"]))
        if spec["pick"]["how"] != "tuple":
            f = os.path.join(base, "split.txt")
            if not os.path.exists(f):
                put(f, "\n".join(which) + ("\n" if spec["pick"]["how"] == "lines" else ""))
            which = f
    if spec["kind"] == "scannet":
        return Scannet(os.path.join(base, "scans") + end, os.path.join(base, "meta") + end, which, opt.pop("start"), opt.pop("end"), **opt)
    return (TUM if spec["kind"] == "tum" else ICL)(base + end, which, **opt)


def seq_name(spec, s):
    if spec["kind"] == "tum":
        return tum_name(s)
    if spec["kind"] == "icl":
        return icl_name(spec, s)
    return scannet_seq(s, spec)[1]


def group_name(spec, s):
    """What selects sequence s: its own name, or for ScanNet its scene's."""
    return scannet_seq(s, spec)[0] if spec["kind"] == "scannet" else seq_name(spec, s)


def windows(recs, spec):
    """{key: [record...]}: every sample the options ask for. key = the stems of its frames, per sequence."""
    opt = spec["opt"]
    out = {}
    if "pick" in spec:
        n = len(spec["seqs"])
        chosen = set(group_name(spec, i) for i in spec["pick"]["ids"] if i < n)
        recs = {seq_name(spec, i): recs[seq_name(spec, i)] for i in range(n) if group_name(spec, i) in chosen}
    for name, rs in recs.items():
        if spec["kind"] == "scannet":
            end = len(rs) if opt["end"] == -1 else opt["end"]
            out[name] = rs[opt["start"]:end]
            continue
        s = opt["start"] or 0
        rs = rs[s:opt["end"]]
        posed = opt["return_pose"] or opt["return_transform"]
        rs = [r for r in rs if r.get("lost") is None or (r["lost"] != "depth" and not posed)]
        dil = opt["dilation"] or 0
        stride = opt["stride"] if opt["stride"] is not None else opt["seqlen"] * (dil + 1)
        for a in range(0, len(rs), stride):
            ids = [a + j * (dil + 1) for j in range(opt["seqlen"])]
            if ids[-1] >= len(rs):
                break
            win = [rs[i] for i in ids]
            out[", ".join("%s/%s" % (name, r["stem"]) for r in win)] = win
    return out


def normal_key(name):
    return ", ".join("/".join(p for p in x.split("/") if p) for x in name.split(", "))


def nearest(a, H, W):
    h, w = a.shape[:2]
    return a[(np.arange(H) * h) // H][:, (np.arange(W) * w) // W]


def layout(a, cf):
    return np.moveaxis(a, -1, 1) if cf else a


def split_sample(spec, sample):
    """{field: value} of the tuple a loader returned, in the documented order of its fields."""
    opt = spec["opt"]
    names = ["color"]
    for k, v in (("return_depth", "depth"), ("return_intrinsics", "intrinsics"), ("return_pose", "pose"), ("return_transform", "transform")):
        if opt[k]:
            names.append(v)
    names.append("name")
    if spec["kind"] == "scannet" and opt.get("return_labels"):
        names.append("label")
    if spec["kind"] == "tum":
        names.append("stamps")
    if len(sample) != len(names):
        return None
    return dict(zip(names, sample))


def expected(spec, win):
    """{field: (value, tolerance)} for one sample."""
    opt = spec["opt"]
    H, W, cf = opt["height"], opt["width"], opt["channels_first"]
    fr = [r["frame"] for r in win]
    if (H, W) == (spec["h"], spec["w"]):
        color = np.stack([f.rgb for f in fr]).astype(float)
        ctol = np.full(color.shape, 1e-3)
    else:  # interpolated: anything between the darkest and the brightest pixel around
        lo, hi = (np.stack(x) for x in zip(*(blend(f.rgb, H, W) for f in fr)))
        color, ctol = (lo + hi) / 2, (hi - lo) / 2 + np.where(hi > lo, 0.6, 1e-3)
    if opt["normalize_color"]:
        color, ctol = color / 255.0, np.maximum(ctol / 255.0, 1e-5)
    out = {"color": (layout(color, cf), layout(ctol, cf))}
    scale = DEPTH_SCALE[spec["kind"]]
    depth = np.stack([nearest(f.depth, H, W) for f in fr]).astype(float)[..., None] / scale
    out["depth"] = (layout(depth, cf), 1e-5)
    if spec["kind"] == "scannet":
        K = fr[0].K.copy()
        K[0] *= W / 640.0
        K[1] *= H / 480.0
    else:
        K = camera(spec, 0, W, H)
    out["intrinsics"] = (K[None], 1e-3)
    P = [f.pose for f in fr]
    inv0 = np.linalg.inv(P[0])
    out["pose"] = (np.stack([inv0 @ p for p in P]), 1e-3)
    out["transform"] = (np.stack([np.eye(4)] + [np.linalg.inv(a) @ b for a, b in zip(P[:-1], P[1:])]), 1e-3)
    if spec["kind"] == "scannet":
        lab = np.stack([nearest(f.label, H, W) for f in fr])
        if opt["seg_classes"] == "scannet20":
            m = np.zeros(41, int)
            for i, v in enumerate(NYU20):
                m[v] = i + 1
            lab = m[lab]
        out["label"] = (lab[..., None].astype(float), 0)
    if spec["kind"] == "tum":
        posed = opt["return_pose"] or opt["return_transform"]
        out["stamps"] = "\n".join("rgb %s depth %s pose %s" % (r["stamps"][0], r["stamps"][1], r["stamps"][2] if posed else None) for r in win)
    return out
