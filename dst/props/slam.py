"""S01-S07: whole SLAM sessions under crashes, failed allocations, interleavings and sensor faults."""
import copy

import numpy as np
import torch

from .. import scene, sched
from ..core import Discard, Property, SimCrash, Violation
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..tools import close, diff_text, dump_load, npr, rng_of, same_bits, to_np

REAL = ["gradslam.slam.ICPSLAM", "gradslam.slam.PointFusion", "gradslam.slam.fusionutils", "gradslam.odometry",
        "gradslam.structures.Pointclouds", "gradslam.structures.RGBDImages", "gradslam.geometry", "chamferdist nearest neighbours"]


def G():
    import gradslam.slam
    import gradslam.structures

    return gradslam.slam, gradslam.structures


def draw_cfg(rng, odoms=("gt", "gt", "icp", "gradicp"), classes=("ICPSLAM", "PointFusion", "PointFusion")):
    return {"cls": rng.choice(classes), "odom": rng.choice(odoms), "dsratio": rng.choice([1, 1, 2]), "numiters": rng.choice([1, 2, 4]),
            "dist_th": rng.choice([0.02, 0.05, 0.2, 0.5]), "angle_th": rng.choice([5, 20, 45, 90]), "sigma": rng.choice([0.6, 1.5])}


def make_slam(cfg):
    slam, _ = G()
    kw = dict(odom=cfg["odom"], dsratio=cfg["dsratio"], numiters=cfg["numiters"])
    if "dist_thresh" in cfg:
        kw["dist_thresh"] = cfg["dist_thresh"]
    if cfg["cls"] == "PointFusion":
        kw.update(dist_th=cfg["dist_th"], angle_th=cfg["angle_th"], sigma=cfg["sigma"])
    return getattr(slam, cfg["cls"])(**kw)


def t32(x):
    return torch.tensor(np.ascontiguousarray(x), dtype=torch.float32)


def make_frames(arrays, poses=True, warm=(), sel=None):
    _, st = G()
    rgb, dep, K, P = arrays if sel is None else [a[sel] for a in arrays]
    f = st.RGBDImages(t32(rgb), t32(dep), t32(K), t32(P) if poses else None)
    for v in warm:
        getattr(f, v)
    return f


def cloud(pc, B):
    """Per batch element: points, normals, colours, features as float64 arrays."""
    out = []
    for b in range(B):
        d = {}
        for name, width in (("points", 3), ("normals", 3), ("colors", 3), ("features", None)):
            lst = getattr(pc, name + "_list")
            d[name] = None if lst is None or len(lst) == 0 else to_np(lst[b]).astype(np.float64)
            if lst is not None and len(lst) not in (0, B):
                raise Violation("wrong-map", "the map holds %d batch elements, expected %d" % (len(lst), B))
        if d["points"] is None:
            d["points"] = np.zeros((0, 3))
        out.append(d)
    return out


def compare(a, b, ptol=2e-4, loose=1.0):
    """None, or a text saying how result a differs from b. Results are (clouds, poses)."""
    (ca, pa), (cb, pb) = a, b
    if pa is not None and not close(pa, pb, 2e-5 * loose):
        return diff_text("poses", pa, pb)
    for i, (x, y) in enumerate(zip(ca, cb)):
        if len(x["points"]) != len(y["points"]):
            return "batch element %d has %d points, expected %d" % (i, len(x["points"]), len(y["points"]))
        if not len(x["points"]):
            continue
        for k, tol in (("points", ptol), ("colors", 2e-2), ("features", 2e-4), ("normals", 5e-3)):
            if (x[k] is None) != (y[k] is None):
                return "batch element %d: %s present in one result only" % (i, k)
            if x[k] is None:
                continue
            tol *= loose
            if not close(x[k], y[k], tol * max(1.0, float(np.abs(y[k]).max())) if k == "points" else tol):
                return "batch element %d: %s" % (i, diff_text(k, x[k], y[k]))
    return None


def fully(fn):
    """Runs a reference computation; returns (result, error)."""
    try:
        return fn(), None
    except Exception as e:
        return None, e


def refusable(cfg, spec, err):
    """May this session be refused? ICP raises when a frame, or the part of the map it sees, is empty, or its system is singular."""
    return (cfg["odom"] != "gt" and isinstance(err, (RuntimeError, torch.linalg.LinAlgError))
            and any(f in ("dropout", "occluded", "blackout", "jump", "window") for row in spec["faults"] for f in row[:spec["L"]]))


def well_conditioned(arrays, reference, result):
    """Does the reference result survive perturbations far below sensor precision?"""
    for k, (eps, loose) in enumerate([(3e-6, 1.0)] * 4 + [(1e-7, 1.0), (1e-6, 1.0), (1e-5, 30.0), (1e-5, 30.0), (3e-5, 50.0)] * 3):
        rs = npr("perturb", k)
        rgb, dep, K, P = arrays
        dep2 = dep * (1 + eps * rs.uniform(-1, 1, dep.shape))
        K2 = K * (1 + 1e-7 * rs.uniform(-1, 1, K.shape))
        r, err = fully(lambda: reference((rgb, dep2, K2, P)))
        if err is not None or compare(r, result, loose=loose) is not None:
            return False
    return True


def must_match(run, got, want, arrays, reference, kind, where):
    run.stats["checks"] += 1
    d = compare(got, want)
    if d is None:
        return
    if not well_conditioned(arrays, reference, want):
        raise Discard("a decision in this scene is tied at float precision")
    raise Violation(kind, where + ": " + d)


def note_scene(run, spec):
    for row in spec["faults"]:
        for f in row:
            if f != "ok":
                run.fault("frame-" + f)
    run.sim_ms += spec["L"] * 33.0
    run.shape(spec["B"], spec["L"], spec["H"], spec["W"], spec["faults"], spec["move"])


def solo(cfg, arrays, poses=True, warm=()):
    slam = make_slam(cfg)
    f = make_frames(arrays, poses, warm)
    pc, p = slam(f)
    return cloud(pc, len(f)), to_np(p).astype(np.float64)


# failures that both sides of a comparison may share: nothing to localise against
def shrink_scene(plan):
    s = plan["scene"]
    for k in ("B", "L"):
        if s[k] > 1:
            c = copy.deepcopy(plan)
            c["scene"][k] -= 1
            if k == "B":
                c["scene"]["faults"] = s["faults"][:-1]
            else:
                c["scene"]["faults"] = [r[:-1] for r in s["faults"]]
            yield c
    for b, row in enumerate(s["faults"]):
        for l, f in enumerate(row):
            if f != "ok":
                c = copy.deepcopy(plan)
                c["scene"]["faults"][b][l] = "ok"
                yield c


class SlamProperty(Property):
    real = REAL
    stubs = ["camera and scene (simulated)", "open3d"]
    list_fields = ("path",)
    assumptions = ["runs where a perturbation of the input far below sensor precision changes the reference result are discarded",
                   "maps that are empty for one batch element make ICP odometry raise on the pinned tree; such scenes are only run with given poses"]

    def shrinks(self, plan):
        return shrink_scene(plan)


def identity_start(frame, B):
    frame.poses = torch.eye(4).view(1, 1, 4, 4).repeat(B, 1, 1, 1)


WARM = ["vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask"]


class CrashResume(SlamProperty):
    """S01: streaming, and resuming from a checkpoint after a crash, give what one uninterrupted run gives."""

    id = "S01"
    quick_runs = 5000
    thorough_runs = 500000
    list_fields = ("path", "warm")
    rule = ("one run = a simulated sequence (sensor faults included) mapped once by the whole-sequence call and once frame by frame with "
            "in- and out-of-place steps, crashes before a random gradslam line and resumption from the last serialised checkpoint in a new "
            "SLAM object; maps and poses must agree; non-trivial = a crash, resume or sensor fault happened; distinct by configuration, faults, path")
    expected_probes = ("crash-inside-step", "resumed", "in-place-step", "out-of-place-step", "odom-gt", "odom-icp", "odom-gradicp")

    def generate(self, rng, tier):
        cfg = draw_cfg(rng)
        sc = scene.draw(rng, L=rng.randint(2, 4 if tier == "quick" else 8), small=True, first_ok=cfg["odom"] != "gt" or rng.random() < 0.7)
        path = []
        for _ in range(sc["L"]):
            path.append({"inplace": rng.random() < 0.5, "crash": round(rng.random(), 5) if rng.random() < 0.45 else None,
                         "resume": rng.random() < 0.2, "prev": rng.random() < 0.3})
        return {"cfg": cfg, "scene": sc, "path": path, "poses": cfg["odom"] == "gt" or rng.random() < 0.5,
                "warm": [v for v in WARM if rng.random() < 0.2]}

    def execute(self, plan, run):
        slamlib, st = G()
        cfg, spec, poses = plan["cfg"], plan["scene"], plan["poses"]
        B = spec["B"]
        arrays = scene.build(spec)
        note_scene(run, spec)
        run.shape(cfg, plan["path"], poses, plan["warm"])
        run.probe("odom-" + cfg["odom"])
        reference = lambda a: solo(cfg, a, poses)
        want, err = fully(lambda: solo(cfg, arrays, poses, plan["warm"]))
        if err is not None:
            raise Discard("the uninterrupted run fails: %s" % type(err).__name__) if refusable(cfg, spec, err) else err
        slam = make_slam(cfg)
        pc, prev, rec = st.Pointclouds(), None, []
        for s in range(spec["L"]):
            step = plan["path"][s] if s < len(plan["path"]) else {"inplace": True, "crash": None, "resume": False, "prev": False}

            def live_frame():
                f = make_frames(arrays, poses)[:, s]
                if s == 0 and not poses:
                    identity_start(f, B)
                return f

            saved = (pc, prev)
            if step["crash"] is not None or step["resume"]:
                # what is durable: the serialised map and previous frame
                mem = dump_load(saved)
            if step["crash"] is not None:
                with CrashAt(None) as c:
                    make_slam(cfg).step(*dump_load((pc, live_frame(), prev)), inplace=step["inplace"])
                try:
                    with CrashAt(min(int(step["crash"] * c.n), max(c.n - 1, 0))):
                        slam.step(pc, live_frame(), prev, inplace=step["inplace"])
                except SimCrash:
                    run.fault("crash")
                    run.probe("crash-inside-step")
                slam, (pc, prev) = make_slam(cfg), mem
                run.probe("resumed")
            elif step["resume"]:
                slam, (pc, prev) = make_slam(cfg), mem
                run.fault("restart-from-checkpoint")
                run.probe("resumed")
            live = live_frame()
            given = prev if (cfg["odom"] != "gt" or not step["prev"]) else None
            out, p = slam.step(pc, live, given, inplace=step["inplace"])
            if step["inplace"]:
                run.probe("in-place-step")
                d = compare((cloud(pc, B), None), (cloud(out, B), None))
                run.check(d is None, "in-place-step-missed-input", lambda: "step %d: the map passed in differs from the map returned: %s" % (s, d))
                run.check(close(to_np(live.poses), to_np(p), 1e-6), "in-place-step-missed-input", "step %d: the live frame did not get its pose" % s)
            else:
                run.probe("out-of-place-step")
                live.poses = p
            pc = out
            rec.append(to_np(p)[:, 0].astype(np.float64))
            prev = live if cfg["odom"] != "gt" else None
            run.event(s, [len(c["points"]) for c in cloud(pc, B)])
        got = cloud(pc, B), np.stack(rec, 1)
        must_match(run, got, want, arrays, reference, "resumed-run-differs", "%s" % cfg)
        run.state(cfg["cls"], cfg["odom"], [len(c["points"]) for c in got[0]])


class BatchMates(SlamProperty):
    """S02: what happens to one sequence of a batch never affects another."""

    id = "S02"
    quick_runs = 5000
    thorough_runs = 500000
    rule = ("one run = 2-4 simulated sequences mapped as one batch while some of them suffer sensor faults (drop-outs, occlusion, noise, "
            "stalls, blackouts, teleports, corrupt depth), and each mapped alone; maps and poses must agree element by element; non-trivial = a sensor fault "
            "happened; distinct by configuration and faults")
    expected_probes = ("odom-gt", "odom-icp", "odom-gradicp", "unequal-map-sizes", "corrupt-batch-mate")

    def generate(self, rng, tier):
        cfg = draw_cfg(rng)
        sc = scene.draw(rng, B=rng.choice([2, 2, 3, 4]), L=rng.randint(1, 4 if tier == "quick" else 7), rates=0.5, small=True,
                        first_ok=cfg["odom"] != "gt" or rng.random() < 0.5)
        corrupt = []
        if cfg["odom"] == "gt" and rng.random() < 0.4:
            corrupt = [[rng.randrange(sc["B"]), rng.randrange(sc["L"]), rng.choice(["nan", "inf", "huge", "negative"]), rng.randrange(1 << 20)]
                       for _ in range(rng.choice([1, 2]))]
        return {"cfg": cfg, "scene": sc, "poses": cfg["odom"] == "gt" or rng.random() < 0.5, "corrupt": corrupt, "perm": rng.random() < 0.5}

    list_fields = ("corrupt",)

    def execute(self, plan, run):
        cfg, spec, poses = plan["cfg"], plan["scene"], plan["poses"]
        B = spec["B"]
        rgb, dep, K, P = scene.build(spec)
        note_scene(run, spec)
        run.shape(cfg, poses, plan["corrupt"])
        run.probe("odom-" + cfg["odom"])
        bad = set()
        for b, l, how, sd in plan["corrupt"]:
            if b >= B or l >= spec["L"]:
                continue
            rs = npr("corrupt", sd)
            m = rs.uniform(size=dep[b, l].shape) < 0.3
            dep[b, l][m] = {"nan": np.nan, "inf": np.inf, "huge": 1e30, "negative": -2.0}[how]
            if how != "negative":
                bad.add(b)
            run.fault("corrupt-depth-" + how)
            run.probe("corrupt-batch-mate")
        arrays = (rgb, dep, K, P)
        got, err = fully(lambda: solo(cfg, arrays, poses))
        refs = []
        for b in range(B):
            if b in bad:
                refs.append(None)
                continue
            one = [a[b:b + 1] for a in arrays]
            r, e = fully(lambda: solo(cfg, one, poses))
            refs.append((r, e))
        solo_errors = [r[1] for r in refs if r is not None and r[1] is not None]
        if err is not None:
            if solo_errors and refusable(cfg, spec, err):
                raise Discard("an element cannot be mapped on its own either")
            if bad:
                raise Discard("the batch was refused because of a corrupt element")
            raise err
        for b in range(B):
            if refs[b] is None:
                continue
            r, e = refs[b]
            if e is not None:
                if refusable(cfg, spec, e):
                    continue
                raise e
            one = tuple(a[b:b + 1] for a in arrays)
            must_match(run, ([got[0][b]], got[1][b:b + 1]), r, one, lambda a: solo(cfg, a, poses), "batch-mate-interferes",
                       "element %d of %d, %s" % (b, B, cfg))
        sizes = [len(c["points"]) for c in got[0]]
        if len(set(sizes)) > 1:
            run.probe("unequal-map-sizes")
        run.event(sizes)
        run.state(cfg["cls"], cfg["odom"], sizes)


class SharedSlam(SlamProperty):
    """S03: sessions sharing one SLAM object, interleaved or concurrent, do not see each other."""

    id = "S03"
    quick_runs = 4000
    thorough_runs = 400000
    list_fields = ("order",)
    rule = ("one run = 2-3 sequences mapped through one SLAM object, either by threads under a seeded random or PCT schedule that may preempt at "
            "any gradslam line, or by interleaving their steps in a seeded order, compared with each sequence mapped alone by its own object; "
            "non-trivial = a preemption or an interleaved step; distinct by configuration and schedule")
    stubs = SlamProperty.stubs + ["thread scheduling (replaced by the simulator's scheduler)"]
    expected_probes = ("preempted-inside-gradslam", "interleaved-steps", "odom-icp", "odom-gradicp", "odom-gt")

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("gt", "icp", "gradicp"))
        cfg["numiters"] = rng.choice([1, 2])
        n = rng.choice([2, 2, 3])
        return {"cfg": cfg, "scenes": [scene.draw(rng, B=rng.choice([1, 1, 2]), L=rng.choice([1, 2, 2, 2, 3]), rates=0.2, small=True,
                                                  kinds=["dropout", "occluded", "noise", "stalled"]) for _ in range(n)],
                "poses": [cfg["odom"] == "gt" or rng.random() < 0.5 for _ in range(n)], "how": rng.choice(["threads", "threads", "steps"]),
                "order": [rng.randrange(n) for _ in range(9)], "sched": sched.draw(rng)}

    def shrinks(self, plan):
        for i in range(len(plan["scenes"])):
            for c in shrink_scene({"scene": plan["scenes"][i]}):
                d = copy.deepcopy(plan)
                d["scenes"][i] = c["scene"]
                yield d

    def execute(self, plan, run):
        _, st = G()
        cfg, specs = plan["cfg"], plan["scenes"]
        n = len(specs)
        run.probe("odom-" + cfg["odom"])
        run.shape(cfg, plan["how"], plan["poses"])
        arr, want = [], []
        for sp, poses in zip(specs, plan["poses"]):
            note_scene(run, sp)
            a = scene.build(sp)
            r, e = fully(lambda: solo(cfg, a, poses))
            if e is not None:
                if refusable(cfg, sp, e):
                    raise Discard("a session cannot be mapped on its own")
                raise e
            arr.append(a)
            want.append(r)
        slam = make_slam(cfg)
        if plan["how"] == "threads":
            def body(i):
                f = make_frames(arr[i], plan["poses"][i])

                def go():
                    pc, p = slam(f)
                    return cloud(pc, specs[i]["B"]), to_np(p).astype(np.float64)

                return go

            res = sched.Scheduler(plan["sched"], run).go([body(i) for i in range(n)])
            got = []
            for status, val in res:
                if status == "error":
                    raise val
                got.append(val)
        else:
            state = [dict(pc=st.Pointclouds(), prev=None, s=0, rec=[], f=make_frames(arr[i], plan["poses"][i])) for i in range(n)]
            order = list(plan["order"]) + [i for i in range(n) for _ in range(specs[i]["L"])]
            lastrun = None
            for i in order:
                x = state[i] if i < n else None
                if x is None or x["s"] >= specs[i]["L"]:
                    continue
                if lastrun is not None and lastrun != i:
                    run.nontrivial = True
                    run.probe("interleaved-steps")
                lastrun = i
                run.shape(i)
                live = x["f"][:, x["s"]]
                if x["s"] == 0 and not plan["poses"][i]:
                    identity_start(live, specs[i]["B"])
                x["pc"], live.poses = slam.step(x["pc"], live, x["prev"], inplace=True)
                x["rec"].append(to_np(live.poses)[:, 0].astype(np.float64))
                x["prev"] = live if cfg["odom"] != "gt" else None
                x["s"] += 1
            got = [(cloud(x["pc"], specs[i]["B"]), np.stack(x["rec"], 1)) for i, x in enumerate(state)]
        for i in range(n):
            must_match(run, got[i], want[i], arr[i], lambda a: solo(cfg, a, plan["poses"][i]), "sessions-interfere", "session %d of %d, %s" % (i, n, cfg))
            run.event(i, [len(c["points"]) for c in got[i][0]])
        run.state(cfg["cls"], cfg["odom"], plan["how"], [[len(c["points"]) for c in g[0]] for g in got])


# ------------------------------------------------------------------ S04


FRAME_VIEWS = ["rgb_image", "depth_image", "intrinsics", "poses", "valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map"]
CLOUD_VIEWS = ["points_list", "normals_list", "colors_list", "features_list", "points_padded", "normals_padded", "colors_padded", "features_padded",
               "num_points_per_pointcloud"]


def look(obj):
    """Every public value of a map or frame batch, read from a deep copy."""
    if obj is None:
        return None
    obj = copy.deepcopy(obj)
    out = {}
    names = FRAME_VIEWS if hasattr(obj, "rgb_image") else CLOUD_VIEWS
    if names is CLOUD_VIEWS and not obj.has_points:
        return {"empty": None}
    for n in names:
        v = getattr(obj, n)
        out[n] = [x.clone() for x in v] if isinstance(v, list) else (None if v is None else v.clone())
    return out


def seen_same(a, b):
    if (a is None) != (b is None):
        return "presence"
    if a is None:
        return None
    if set(a) != set(b):
        return "which values exist"
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return k
        if x is None:
            continue
        xs, ys = (x, y) if isinstance(x, list) else ([x], [y])
        if len(xs) != len(ys) or not all(same_bits(p, q) for p, q in zip(xs, ys)):
            return k
    return None


WRONG = ["no frame", "no map", "a previous frame of the wrong type", "a frame without poses and no previous frame", "a previous frame without poses",
         "more frames than maps", "two frames at once"]


def wrong_call(what, cfg, arrays, pc, live, prev):
    """Arguments a step must refuse, or None when it need not refuse them in this situation."""
    def bare(f):
        x = f.clone()
        return type(x)(x.rgb_image, x.depth_image, x.intrinsics, None)

    if what == "no frame":
        return pc, live.depth_image, prev
    if what == "no map":
        return None, live, prev
    if what == "a previous frame of the wrong type":
        return pc, live, live.rgb_image
    if what == "a frame without poses and no previous frame":
        return pc, bare(live), None
    if what == "a previous frame without poses":
        return None if cfg["odom"] == "gt" else (pc, live, bare(live))
    if not live.has_poses:
        return None
    if what == "more frames than maps":
        return (pc, make_frames([np.concatenate([a, a]) for a in arrays])[:, 0], None) if pc.has_points else None
    return pc, make_frames([np.concatenate([a, a], 1) if a.shape[1] > 1 or i != 2 else a for i, a in enumerate(arrays)])[:, :2], None


class UntouchedInputs(SlamProperty):
    """S04: an out-of-place step leaves its inputs alone whether it succeeds, fails or is cut short."""

    id = "S04"
    level = "fault_enumeration"
    quick_runs = 4000
    thorough_runs = 400000
    list_fields = ("tries",)
    rule = ("one run = a session brought to a random frame, then 1-4 attempts at the next out-of-place step, each with a chosen tensor allocation "
            "failing, a crash before a chosen gradslam line, or arguments that must be refused; after every attempt the map, live frame and previous frame must be bit-identical to "
            "before, and the final fault-free step must equal a step that never saw a fault; distinct by configuration and fault points")
    expected_probes = ("failed-step", "interrupted-step", "odom-gt", "odom-icp", "odom-gradicp", "map-was-empty", "map-was-populated")

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("gt", "gt", "icp", "gradicp"))
        cfg["numiters"] = rng.choice([1, 1, 2])
        sc = scene.draw(rng, B=rng.choice([1, 1, 2]), L=rng.randint(1, 3), small=True, kinds=["dropout", "occluded", "noise", "stalled"])
        tries = [[rng.choice(["alloc", "alloc", "crash"]), round(rng.random(), 6)] for _ in range(rng.randint(1, 4))]
        for _ in range(rng.choice([0, 0, 1, 2])):
            tries.insert(rng.randint(0, len(tries)), ["wrong", rng.choice(WRONG), rng.random() < 0.5])
        return {"cfg": cfg, "scene": sc, "tries": tries, "poses": cfg["odom"] == "gt" or rng.random() < 0.5, "warm": [v for v in WARM if rng.random() < 0.4],
                "padded": rng.random() < 0.4, "clone": rng.random() < 0.3}

    def execute(self, plan, run):
        _, st = G()
        cfg, spec, poses = plan["cfg"], plan["scene"], plan["poses"]
        B, L = spec["B"], spec["L"]
        arrays = scene.build(spec)
        note_scene(run, spec)
        run.probe("odom-" + cfg["odom"])
        slam = make_slam(cfg)
        pc, prev = st.Pointclouds(), None
        f = make_frames(arrays, poses)

        def live_frame(s):
            x = f[:, s].clone() if plan["clone"] else f[:, s]
            if s == 0 and not poses:
                identity_start(x, B)
            return x

        try:
            for s in range(L - 1):
                live = live_frame(s)
                pc, live.poses = slam.step(pc, live, prev, inplace=True)
                prev = live if cfg["odom"] != "gt" else None
        except RuntimeError as e:
            if refusable(cfg, spec, e):
                raise Discard("the session cannot be brought to this frame")
            raise
        live = live_frame(L - 1)
        for v in plan["warm"]:
            getattr(live, v)
        if plan["padded"] and pc.has_points:
            pc.points_padded, pc.features_padded
        run.probe("map-was-populated" if pc.has_points else "map-was-empty")
        inputs = {"map": pc, "live frame": live, "previous frame": prev}
        before = {k: look(v) for k, v in inputs.items()}
        want, err = fully(lambda: make_slam(cfg).step(*copy.deepcopy((pc, live, prev)), inplace=False))
        if err is not None:
            if refusable(cfg, spec, err):
                raise Discard("this step is refused without faults too")
            raise err
        want = cloud(want[0], B), to_np(want[1]).astype(np.float64)

        def untouched(when):
            for k, v in inputs.items():
                d = seen_same(before[k], look(v))
                run.check(d is None, "input-modified", lambda: "%s of the %s changed by an out-of-place step that %s; %s" % (d, k, when, cfg))

        for how, u, *more in plan["tries"]:
            if how == "wrong":
                call = wrong_call(u, cfg, arrays, pc, live, prev)
                if call is None:
                    continue
                try:
                    slam.step(*call, inplace=more[0])
                except Exception:
                    run.fault("refused-call")
                    run.shape(u, more[0])
                else:
                    raise Violation("accepted-invalid", "a step called with %s (inplace=%s) was accepted; %s" % (u, more[0], cfg))
                untouched("was refused (%s, inplace=%s)" % (u, more[0]))
                continue
            args = copy.deepcopy((pc, live, prev))
            try:
                if how == "alloc":
                    with alloc_faults() as c:
                        make_slam(cfg).step(*args, inplace=False)
                    k = min(int(u * c.n), max(c.n - 1, 0))
                    fa = alloc_faults([k])
                    try:
                        with fa:
                            slam.step(pc, live, prev, inplace=False)
                    finally:
                        if fa.fired:
                            run.fault("failed-allocation")
                else:
                    with CrashAt(None) as c:
                        make_slam(cfg).step(*args, inplace=False)
                    k = min(int(u * c.n), max(c.n - 1, 0))
                    with CrashAt(k):
                        slam.step(pc, live, prev, inplace=False)
            except SimCrash:
                run.fault("crash")
                run.probe("interrupted-step")
                run.shape("crash", k)
                untouched("was interrupted")
            except RuntimeError as e:
                if not is_injected_alloc(e):
                    raise
                run.probe("failed-step")
                run.shape("alloc", k)
                untouched("failed")
        out, p = slam.step(pc, live, prev, inplace=False)
        untouched("succeeded")
        got = cloud(out, B), to_np(p).astype(np.float64)
        d = compare(got, want)
        run.check(d is None, "retry-differs", lambda: "after %s: %s" % (plan["tries"], d))
        # the result is a value of its own
        with torch.no_grad():
            for name in ("points_list", "normals_list", "colors_list", "features_list"):
                for t in getattr(out, name) or []:
                    t.fill_(-7.0)
            p.fill_(-7.0)
        untouched("succeeded, after its result was overwritten")
        run.shape(cfg, plan["warm"], plan["padded"], poses)
        run.event([len(c["points"]) for c in got[0]])
        run.state(cfg["cls"], cfg["odom"], L, [len(c["points"]) for c in got[0]])


# ------------------------------------------------------------------ S05


class Tie(Exception):
    pass


def fusion_reference(m, frame, T, K, cfg):
    """One fusion step of one batch element in float64. frame: dict of (H,W,...) arrays.
    Returns (points, normals, colors, confidences, matched). Raises Tie when a decision is too close to call."""
    H, W = frame["depth"].shape[:2]
    p, n, c, f = m["points"], m["normals"], m["colors"], m["features"]
    N = len(p)
    dot_th = np.cos(np.deg2rad(cfg["angle_th"]))
    alpha = np.exp(-np.sum(frame["vertex"] ** 2, -1) / (2 * cfg["sigma"] ** 2))
    alpha = np.clip(alpha, 1e-7, 1.01)
    best = {}
    if N:
        inv = np.linalg.inv(T)
        q = p @ inv[:3, :3].T + inv[:3, 3]
        z = q[:, 2]
        for i in range(N):
            if z[i] < -1e-5:
                continue
            if abs(z[i]) <= 1e-5:
                raise Tie("depth")
            u = K[0, 0] * q[i, 0] / z[i] + K[0, 2]
            v = K[1, 1] * q[i, 1] / z[i] + K[1, 2]
            e = 2e-4 * max(1.0, abs(u), abs(v)) / min(1.0, z[i])
            lo, hu, hv = -1e-3, W - 0.999, H - 0.999
            if u < lo - e or u > hu + e or v < lo - e or v > hv + e:
                continue
            us = {int(np.clip(np.rint(u + d), 0, W - 1)) for d in (-e, 0, e)}
            vs = {int(np.clip(np.rint(v + d), 0, H - 1)) for d in (-e, 0, e)}
            edge = min(abs(u - lo), abs(u - hu), abs(v - lo), abs(v - hv)) <= e
            verdicts = set()
            for uu in us:
                for vv in vs:
                    d = np.linalg.norm(frame["gv"][vv, uu] - p[i])
                    s = float(frame["gn"][vv, uu] @ n[i])
                    near = abs(d - cfg["dist_th"]) < 2e-5 * max(1.0, d)
                    par = abs(s - dot_th) < 2e-4
                    close_, sim = d < cfg["dist_th"], s > dot_th
                    if (near and (sim or par)) or (par and (close_ or near)):
                        raise Tie("threshold")
                    verdicts.add((uu, vv) if close_ and sim else None)
            if verdicts == {None}:
                continue
            if len(verdicts) > 1 or edge:
                raise Tie("pixel")
            uu, vv = verdicts.pop()
            d2 = float(np.sum((frame["gv"][vv, uu] - p[i]) ** 2))
            best.setdefault((vv, uu), []).append((1.0 / (f[i, 0] + 1e-20), d2, i))
    win = {}
    for px, cands in best.items():
        cands.sort()
        if len(cands) > 1:
            a, b = cands[0], cands[1]
            if abs(a[0] - b[0]) <= 2e-6 * a[0] and (a[0] != b[0] or (abs(a[1] - b[1]) <= 1e-5 * max(a[1], 1e-6))):
                raise Tie("candidates")
        win[px] = cands[0][2]
    P, Nn, C, F = p.copy(), n.copy() if N else n, c.copy() if N else c, f.copy() if N else f
    for (vv, uu), i in win.items():
        a, w = alpha[vv, uu], f[i, 0]
        P[i] = (w * p[i] + a * frame["gv"][vv, uu]) / (w + a)
        Nn[i] = (w * n[i] + a * frame["gn"][vv, uu]) / (w + a)
        C[i] = (w * c[i] + a * frame["rgb"][vv, uu]) / (w + a)
        F[i] = w + a
    new = [(v, u) for v in range(H) for u in range(W) if frame["depth"][v, u, 0] > 0 and (v, u) not in win]
    pick = lambda a: np.array([a[v, u] for v, u in new]).reshape(len(new), a.shape[-1])
    Z = lambda a, k: a if N else np.zeros((0, k))
    return (np.concatenate([Z(P, 3), pick(frame["gv"]).reshape(-1, 3)]), np.concatenate([Z(Nn, 3), pick(frame["gn"]).reshape(-1, 3)]),
            np.concatenate([Z(C, 3), pick(frame["rgb"]).reshape(-1, 3)]), np.concatenate([Z(F, 1), pick(alpha[..., None]).reshape(-1, 1)]), win)


class FusionRefinement(SlamProperty):
    """S05: each PointFusion step is exactly one application of the fusion rule."""

    id = "S05"
    quick_runs = 6000
    thorough_runs = 600000
    list_fields = ()
    run_cpu = 140  # one run holds 2^24 map points
    rule = ("one run = a PointFusion session over a simulated sequence with sensor faults; after each step the map is compared with a float64 "
            "reference model of projective association, confidence-weighted merging and insertion applied to the map before the step; steps with "
            "a decision closer than float precision are skipped; non-trivial = a sensor fault happened; distinct by configuration and faults")
    expected_probes = ("merged-points", "inserted-points", "competing-map-points", "blackout-step", "odom-gt", "odom-icp", "bulky-map", "huge-map", "mirrored-points")
    assumptions = SlamProperty.assumptions[1:] + ["the step's own reported pose is taken as given (poses are judged by S06 and S07)",
                                                  "merged normals are averaged, not renormalised, as on the pinned tree"]

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, classes=("PointFusion",), odoms=("gt", "gt", "gt", "icp"))
        sc = scene.draw(rng, B=rng.choice([1, 2, 2]), L=rng.randint(2, 5 if tier == "quick" else 9), rates=0.45, small=True,
                        first_ok=cfg["odom"] != "gt" or rng.random() < 0.7)
        if cfg["odom"] == "gt" and rng.random() < 0.2:  # a tiny room: the thresholds reach across it and behind the camera
            sc["unit"] = rng.choice([0.02, 0.05, 0.2])
        bulk = {"at": rng.randrange(1, sc["L"]), "n": rng.choice([1, 7, 300, 5000])} if rng.random() < 0.2 else None
        if rng.random() < 0.15 and cfg["odom"] == "gt":
            bulk = {"at": rng.randrange(1, sc["L"]), "n": rng.choice([3, 10]), "mirror": rng.choice([0.02, 0.3, 1])}
            if rng.random() < 0.7:
                cfg["dist_th"] = rng.choice([0.5, 10])
        plan = {"cfg": cfg, "scene": sc, "inplace": rng.random() < 0.5, "reload": rng.random() < 0.2, "bulk": bulk}
        if rng.index == 3:  # one run with a map whose indices no float32 can tell apart
            cfg.update(odom="gt", dist_th=0.5, angle_th=90)
            plan.update(scene=dict(scene.draw(rng, B=1, L=2, rates=0.0, small=True), move=0.01), bulk={"at": 1, "n": (1 << 24) + 5}, reload=False)
        return plan

    def widen(self, pc, bulk, T, B, live):
        """The same map with a bulk of points behind the camera before its own: far away, or the mirror images of what it sees."""
        _, st = G()
        out, fixed = {}, {}
        if "mirror" in bulk:
            v, nrm = (to_np(x)[:, 0].reshape(B, -1, 3) for x in (live.vertex_map, live.global_normal_map))
            pick = [np.arange(bulk["n"]) * 7919 % v.shape[1] for b in range(B)]
            q = [np.where(v[b][pick[b]][:, 2:] > 0, -bulk["mirror"] * v[b][pick[b]], [0, 0, -500.0]) for b in range(B)]
            fixed = {"points": [t32(q[b] @ T[b, :3, :3].T + T[b, :3, 3]) for b in range(B)], "normals": [t32(nrm[b][pick[b]]) for b in range(B)]}
        for name, fill in (("points", None), ("normals", 1.0), ("colors", 7.0), ("features", 3.0)):
            lst = getattr(pc, name + "_list")
            if not lst:
                return pc, 0
            far = lambda b: t32(T[b, :3, 3] - 500 * T[b, :3, 2]) if fill is None else torch.full((lst[b].shape[1],), fill)
            out[name] = [torch.cat([fixed[name][b] if name in fixed else far(b).expand(bulk["n"], -1), lst[b]]) for b in range(B)]
        return st.Pointclouds(**out), bulk["n"]

    def narrow(self, pc, wide, n, run, where):
        """Takes the bulk off again; it must be as it was."""
        _, st = G()
        out = {}
        for name in ("points", "normals", "colors", "features"):
            lst = getattr(pc, name + "_list")
            for b, x in enumerate(lst):
                run.check(len(x) >= n and torch.allclose(x[:n], wide[name][b][:n], rtol=1e-5, atol=0), "unseen-points-changed", "%s: %s of points behind the camera changed" % (where, name))
            out[name] = [x[n:].clone() for x in lst]
        return st.Pointclouds(**out)

    def execute(self, plan, run):
        _, st = G()
        cfg, spec, bulk = plan["cfg"], plan["scene"], plan["bulk"]
        B, L = spec["B"], spec["L"]
        rgb, dep, K, P = arrays = scene.build(spec)
        note_scene(run, spec)
        run.shape(cfg, plan["inplace"], bulk)
        run.probe("odom-" + cfg["odom"])
        slam = make_slam(cfg)
        pc, prev = st.Pointclouds(), None
        f = make_frames(arrays)
        for s in range(L):
            before = cloud(pc, B)
            live = f[:, s]
            n = 0
            if bulk and bulk["at"] == s and pc.has_points:
                pc, n = self.widen(pc, bulk, P[:, s], B, live.clone())
                wide = {k: [x.clone() for x in getattr(pc, k + "_list")] for k in ("points", "normals", "colors", "features")}
            try:
                pc, poses = slam.step(pc, live, prev, inplace=plan["inplace"])
            except RuntimeError as e:
                if refusable(cfg, spec, e):
                    raise Discard("ICP against an empty map or frame, or a singular alignment")
                raise
            if n:
                run.probe("mirrored-points" if "mirror" in bulk else "bulky-map" if n < 1 << 24 else "huge-map")
                pc = self.narrow(pc, wide, n, run, "step %d" % s)
                run.nontrivial = True
                del wide
            if not plan["inplace"]:
                live.poses = poses
            prev = live if cfg["odom"] != "gt" else None
            after = cloud(pc, B)
            run.event(s, [len(c["points"]) for c in after])
            # maps of the frame as the (separately checked) frame batch gives them
            g = make_frames((rgb[:, s:s + 1], dep[:, s:s + 1], K, to_np(poses)))
            gv, gn, vm = (to_np(x).astype(np.float64)[:, 0] for x in (g.global_vertex_map, g.global_normal_map, g.vertex_map))
            for b in range(B):
                fr = {"depth": dep[b, s], "rgb": rgb[b, s], "gv": gv[b], "gn": gn[b], "vertex": vm[b]}
                self.judge(run, before[b], after[b], fr, to_np(poses)[b, 0].astype(np.float64), K[b, 0], cfg, "step %d, element %d" % (s, b))
            if plan["reload"]:
                pc = dump_load(pc)
            run.state(cfg["dist_th"], cfg["angle_th"], [len(c["points"]) for c in after])

    def judge(self, run, m0, m1, fr, T, K, cfg, where):
        nvalid = int((fr["depth"] > 0).sum())
        n0, n1 = len(m0["points"]), len(m1["points"])
        run.check(n0 <= n1 <= n0 + nvalid, "points-not-conserved", "%s: %d points became %d with %d valid pixels" % (where, n0, n1, nvalid))
        if nvalid == 0:
            run.probe("blackout-step")
        if n1 and m1["features"] is not None and n0:
            run.check(bool((m1["features"][:n0] >= m0["features"] * (1 - 1e-5)).all()), "confidence-lost", "%s: the confidence of a map point decreased" % where)
        try:
            p, n, c, f, win = fusion_reference(m0, fr, T, K, cfg)
        except Tie as e:
            run.count("tied-steps")
            return
        run.count("exact-steps")
        if win:
            run.probe("merged-points", len(win))
        if n1 > n0:
            run.probe("inserted-points")
        if len(win) and cfg["dist_th"] >= 0.2:
            run.probe("competing-map-points")
        run.check(len(p) == n1, "wrong-fusion", "%s: %d points, the fusion rule gives %d (%d before, %d merged, %d valid pixels)" % (
            where, n1, len(p), n0, len(win), nvalid))
        for name, got, want, tol in (("points", m1["points"], p, 2e-4 * max(1.0, float(np.abs(p).max()) if len(p) else 1.0)), ("normals", m1["normals"], n, 2e-4),
                                     ("colors", m1["colors"], c, 2e-2), ("confidences", m1["features"], f, 2e-5 * max(1.0, float(np.abs(f).max()) if len(f) else 1.0))):
            if not len(p):
                continue
            if got is None or not close(got, want, tol):
                raise Violation("wrong-fusion", "%s: %s" % (where, "no " + name if got is None else diff_text(name, got, want)))
            run.stats["checks"] += 1


# ------------------------------------------------------------------ S06


class AggregateMap(SlamProperty):
    """S06: an aggregated map is every valid pixel of every frame, once, where the reported poses put it."""

    id = "S06"
    quick_runs = 12000
    thorough_runs = 1200000
    list_fields = ("warm",)
    rule = ("one run = an ICPSLAM session (whole-sequence or streamed) over a simulated sequence with sensor faults; its map is compared point by "
            "point with the recorded depth placed by the poses it reported, and with given poses these must be reported unchanged; non-trivial = a "
            "sensor fault happened; distinct by configuration and faults")
    expected_probes = ("odom-gt", "odom-icp", "odom-gradicp", "streamed", "whole", "frames-without-points", "channels-first")

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, classes=("ICPSLAM",), odoms=("gt", "gt", "icp", "gradicp"))
        sc = scene.draw(rng, L=rng.randint(1, 5 if tier == "quick" else 10), rates=0.5, first_ok=cfg["odom"] != "gt" or rng.random() < 0.5)
        return {"cfg": cfg, "scene": sc, "poses": cfg["odom"] == "gt" or rng.random() < 0.5, "streamed": rng.random() < 0.5,
                "inplace": rng.random() < 0.5, "warm": [v for v in WARM if rng.random() < 0.3],
                "cf": cfg["odom"] == "gt" and rng.random() < 0.3}

    def execute(self, plan, run):
        _, st = G()
        cfg, spec, given = plan["cfg"], plan["scene"], plan["poses"]
        B, L = spec["B"], spec["L"]
        rgb, dep, K, P = arrays = scene.build(spec)
        note_scene(run, spec)
        run.shape(cfg["odom"], plan["streamed"], plan["inplace"], given, plan["warm"], plan["cf"])
        run.probe("odom-" + cfg["odom"])
        run.probe("streamed" if plan["streamed"] else "whole")
        slam = make_slam(cfg)
        f = make_frames(arrays, given, plan["warm"])
        if plan["cf"]:
            f = f.to_channels_first()
            run.probe("channels-first")
        try:
            if plan["streamed"]:
                pc, prev, rec = st.Pointclouds(), None, []
                for s in range(L):
                    live = f[:, s]
                    if s == 0 and not given:
                        identity_start(live, B)
                    pc, p = slam.step(pc, live, prev, inplace=plan["inplace"])
                    live.poses = p
                    prev = live if cfg["odom"] != "gt" else None
                    rec.append(to_np(p)[:, 0])
                poses = np.stack(rec, 1).astype(np.float64)
            else:
                pc, p = slam(f)
                poses = to_np(p).astype(np.float64)
        except RuntimeError as e:
            if refusable(cfg, spec, e):
                raise Discard("ICP against an empty map or frame, or a singular alignment")
            raise
        got = cloud(pc, B)
        if cfg["odom"] == "gt":
            run.check(close(poses, P, 1e-5), "pose-not-reported", lambda: diff_text("poses", poses, P))
        elif given:
            run.check(close(poses[:, 0], P[:, 0], 1e-5), "pose-not-reported", lambda: diff_text("first pose", poses[:, 0], P[:, 0]))
        else:
            run.check(close(poses[:, 0], np.broadcast_to(np.eye(4), (B, 4, 4)), 1e-6), "pose-not-reported", "the first pose is not the identity")
        finite = np.isfinite(poses).all()
        run.check(finite, "pose-not-finite", "poses are not finite")
        R = poses[..., :3, :3]
        run.check(close(np.einsum("blij,blik->bljk", R, R), np.broadcast_to(np.eye(3), R.shape), 1e-3) and bool((np.linalg.det(R) > 0).all())
                  and close(poses[..., 3, :], np.broadcast_to([0, 0, 0, 1.0], (B, L, 4)), 1e-6), "pose-not-rigid", "a reported pose is not a rigid motion")
        v, u = np.meshgrid(np.arange(spec["H"]), np.arange(spec["W"]), indexing="ij")
        for b in range(B):
            pts, cols, src = [], [], []
            k = K[b, 0]
            for l in range(L):
                z = dep[b, l, ..., 0]
                m = z > 0
                if not m.any():
                    run.probe("frames-without-points")
                q = np.stack([(u - k[0, 2]) / k[0, 0] * z, (v - k[1, 2]) / k[1, 1] * z, z], -1)[m]
                pts.append(q @ poses[b, l, :3, :3].T + poses[b, l, :3, 3])
                cols.append(rgb[b, l][m])
            pts, cols = np.concatenate(pts), np.concatenate(cols)
            where = "element %d, %s, faults %s" % (b, cfg["odom"], spec["faults"][b])
            run.check(len(pts) == len(got[b]["points"]), "points-lost-or-invented", "%s: %d points for %d valid pixels" % (where, len(got[b]["points"]), len(pts)))
            if not len(pts):
                continue
            tol = 1e-4 * max(1.0, float(np.abs(pts).max()))
            if not close(got[b]["points"], pts, tol):
                raise Violation("point-misplaced", "%s: %s" % (where, diff_text("points", got[b]["points"], pts)))
            run.check(got[b]["colors"] is not None and close(got[b]["colors"], cols, 1e-2), "wrong-colour", where)
            run.stats["checks"] += 1
            nn = got[b]["normals"]
            run.check(nn is not None and nn.shape == pts.shape, "wrong-normals", where)
        run.event([len(g["points"]) for g in got])
        run.state(cfg["odom"], [len(g["points"]) for g in got])


# ------------------------------------------------------------------ S07


class StalledCamera(SlamProperty):
    """S07: frames that carry nothing new do not move the camera or the map, and tracking goes on after them."""

    id = "S07"
    quick_runs = 4500
    thorough_runs = 450000
    rule = ("one run = an ICP or gradICP session whose sensor stalls (repeats a frame) or goes dark for 1-4 frames at seeded times, then delivers the "
            "last good view again; the reported pose must stay where it was, a dark frame must leave the map unchanged, and within one frame of "
            "recovery the pose must be the pose before the outage; non-trivial = such a frame occurred; distinct by configuration and schedule")
    expected_probes = ("odom-icp", "odom-gradicp", "odom-gt", "blackout", "stalled", "recovered")

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("icp", "icp", "gradicp", "gradicp", "gt"), classes=("ICPSLAM", "ICPSLAM", "PointFusion"))
        ev = ["ok"]
        for _ in range(rng.randint(1, 3)):
            kinds = ["blackout"] if cfg["cls"] == "PointFusion" and cfg["odom"] != "gt" else ["blackout", "blackout", "stalled"]
            ev += [rng.choice(kinds)] * rng.randint(1, 3)
            if kinds != ["blackout"] and rng.random() < 0.5:
                ev.append("again")
        sc = scene.draw(rng, L=1, rates=0.0)
        return {"cfg": cfg, "scene": sc, "path": ev[:8 if tier == "quick" else 14], "first": rng.random() < 0.5, "whole": rng.random() < 0.5,
                "drop": rng.choice([0, 0, 0.2])}

    def execute(self, plan, run):
        _, st = G()
        cfg, spec = plan["cfg"], plan["scene"]
        B = spec["B"]
        path = plan["path"]
        if not path or path[0] != "ok":
            return
        rgb, dep, K, P = scene.build(spec)
        if plan["drop"]:
            rs = npr("drop", spec["seed"])
            dep = np.where(rs.uniform(size=dep.shape) < plan["drop"], 0, dep)
        L = len(path)
        dark = [e == "blackout" for e in path]
        rgb = np.concatenate([rgb * (0 if d else 1) for d in dark], 1)
        dep = np.concatenate([dep * (0 if d else 1) for d in dark], 1)
        P = np.repeat(P, L, 1)
        for e in path[1:]:
            run.fault("frame-" + ("stalled" if e == "again" else e))
            run.probe("blackout" if e == "blackout" else "stalled")
        run.sim_ms += 33.0 * L
        run.shape(cfg, path, plan["first"], plan["whole"], B)
        run.probe("odom-" + cfg["odom"])
        poses_given = plan["first"] or cfg["odom"] == "gt"
        f = make_frames((rgb, dep, K, P), poses_given)
        slam = make_slam(cfg)
        start = P[:, 0] if poses_given else np.broadcast_to(np.eye(4), (B, 4, 4))
        # a step is only determined when the view constrains all six degrees of freedom; an exact repeat needs no motion whatever it is
        if plan["whole"]:
            pc, p = slam(f)
            poses = to_np(p).astype(np.float64)
        pc, prev, rec = st.Pointclouds(), None, []
        merged = cfg["cls"] == "PointFusion"
        for s in range(L):
            live = f[:, s]
            if s == 0 and not poses_given:
                identity_start(live, B)
            m0 = cloud(pc, B)
            pc, q = slam.step(pc, live, prev, inplace=True)
            live.poses = q
            prev = live if cfg["odom"] != "gt" else None
            q = to_np(q)[:, 0].astype(np.float64)
            rec.append(q)
            m1 = cloud(pc, B)
            where = "frame %d (%s) of %s, %s" % (s, path[s], path, cfg)
            tol = 2e-3
            run.check(close(q, start, tol), "pose-drifted", lambda: where + ": " + diff_text("pose", q, start))
            if path[s] == "blackout":
                d = compare((m1, None), (m0, None))
                run.check(d is None, "dark-frame-changed-map", lambda: where + ": " + d)
            elif s and path[s - 1] == "blackout":
                run.probe("recovered")
            run.event(s, [len(c["points"]) for c in m1])
        if plan["whole"]:
            run.check(close(poses, np.stack(rec, 1), 1e-4), "pose-drifted", lambda: diff_text("poses of the whole-sequence call", poses, np.stack(rec, 1)))
        run.state(cfg["cls"], cfg["odom"], path)


PROPERTIES = [CrashResume(), BatchMates(), SharedSlam(), UntouchedInputs(), FusionRefinement(), AggregateMap(), StalledCamera()]
