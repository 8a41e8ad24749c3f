"""S08-S09: what sessions make of motion: any world frame will do, and tracking follows the camera."""
import numpy as np
import torch

from .. import scene
from ..core import Discard, Violation
from ..tools import close, diff_text, dump_load, npr, rigid, rotation, to_np
from .slam import (G, SlamProperty, cloud, compare, draw_cfg, fully, make_frames, make_slam, note_scene, refusable, solo, t32, well_conditioned)


def moved(result, M):
    """The same maps and poses expressed in a world moved by M."""
    clouds, poses = result
    out = []
    for c in clouds:
        d = dict(c)
        d["points"] = c["points"] @ M[:3, :3].T + M[:3, 3]
        if c["normals"] is not None:
            d["normals"] = c["normals"] @ M[:3, :3].T
        out.append(d)
    return out, M @ poses


def pinned(arrays, least=0.1, step=1):
    """Does every frame either show nothing, or enough to fix the camera in all directions?"""
    _, dep, K, _ = arrays
    return all(not (dep[b, l] > 0).any() or scene.constraint(dep[b, l, ..., 0], K[b, 0], step) >= least for b in range(dep.shape[0]) for l in range(dep.shape[1]))


class AnyWorldFrame(SlamProperty):
    """S08: a session re-anchored in another world frame, at the start or at any frame, gives the same result there."""

    id = "S08"
    quick_runs = 5000
    thorough_runs = 500000
    list_fields = ("anchors",)
    rule = ("one run = a simulated sequence mapped as it is, and again while the world frame is moved by random rigid motions before random frames "
            "(the map moved with the map's own operations, the poses with it, the session possibly saved and restored there); maps and poses must be "
            "the first ones moved along; non-trivial = the frame was moved; distinct by configuration, faults and moves")
    expected_probes = ("odom-gt", "odom-icp", "odom-gradicp", "anchored-at-start", "anchored-midway", "moved-in-place", "moved-out-of-place", "restored")
    assumptions = SlamProperty.assumptions + ["gradICP damps translations and rotations alike, so its sessions are only re-anchored by rotations about "
                                              "the origin of the world frame"]

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("gt", "icp", "gradicp"))
        sc = scene.draw(rng, L=rng.randint(1, 4 if tier == "quick" else 8), rates=0.3, small=cfg["odom"] == "gt", first_ok=cfg["odom"] != "gt" or rng.random() < 0.7)
        anchors = [{"at": 0 if k == 0 and rng.random() < 0.6 else rng.randrange(sc["L"]), "seed": rng.randrange(1 << 30), "inplace": rng.random() < 0.5,
                    "restore": rng.random() < 0.3} for k in range(rng.choice([1, 1, 2, 3]))]
        return {"cfg": cfg, "scene": sc, "anchors": anchors}

    def run_in(self, cfg, spec, arrays, anchors, run=None):
        """Streams the sequence while re-anchoring; returns the result in the last world frame, and the total motion after each frame."""
        _, st = G()
        rgb, dep, K, P = arrays
        slam = make_slam(cfg)
        B = spec["B"]
        pc, prev, rec, total = st.Pointclouds(), None, [], np.eye(4)
        for s in range(spec["L"]):
            for a in anchors:
                if a["at"] != s:
                    continue
                M = self.motion(cfg, a)
                total = M @ total
                rec = [M @ p for p in rec]
                if run is not None:
                    run.nontrivial = True
                    run.probe("anchored-at-start" if s == 0 else "anchored-midway")
                if pc.has_points:
                    if a["inplace"]:
                        pc.transform_(t32(M))
                    else:
                        pc = pc.transform(t32(M))
                    if run is not None:
                        run.probe("moved-in-place" if a["inplace"] else "moved-out-of-place")
                if prev is not None:
                    prev.poses = t32(M @ to_np(prev.poses).astype(np.float64))
                if a["restore"]:
                    pc, prev = dump_load((pc, prev))
                    if run is not None:
                        run.probe("restored")
                        run.fault("restart-from-checkpoint")
            live = make_frames((rgb[:, s:s + 1], dep[:, s:s + 1], K, total @ P[:, s:s + 1]))
            pc, live.poses = slam.step(pc, live, prev, inplace=True)
            rec.append(to_np(live.poses)[:, 0].astype(np.float64))
            prev = live if cfg["odom"] != "gt" else None
        return (cloud(pc, B), np.stack(rec, 1)), total

    def motion(self, cfg, a):
        rs = npr("anchor", a["seed"])
        M = rigid(rs, None, 1.0)
        if cfg["odom"] == "gradicp":
            M[:3, 3] = 0
        return M

    def execute(self, plan, run):
        cfg, spec, anchors = plan["cfg"], plan["scene"], plan["anchors"]
        arrays = scene.build(spec)
        note_scene(run, spec)
        run.shape(cfg, anchors)
        run.probe("odom-" + cfg["odom"])
        reference = lambda a: self.run_in(cfg, spec, a, ())[0]
        want, err = fully(lambda: reference(arrays))
        if err is not None:
            raise Discard("the session fails in its own frame: %s" % type(err).__name__) if refusable(cfg, spec, err) else err
        if cfg["odom"] != "gt" and not pinned(arrays):
            raise Discard("a frame leaves the camera free to slide")
        run.stats["checks"] += 1
        got, total = self.run_in(cfg, spec, arrays, anchors, run)
        want2 = moved(want, total)
        d = compare(got, want2, loose=3.0 if cfg["odom"] == "gt" else 25.0)
        run.event([len(c["points"]) for c in got[0]])
        run.state(cfg["cls"], cfg["odom"], [len(c["points"]) for c in got[0]])
        if d is None:
            return
        # would moving the world by nothing but rounding errors do the same?
        if not well_conditioned(arrays, reference, want):
            raise Discard("a decision in this scene is tied at float precision")
        raise Violation("frame-dependent", "%s, moves %s: %s" % (cfg, [a["at"] for a in anchors], d))


class PulledBack(SlamProperty):
    """S09: a disturbed pose estimate is pulled back to the map by the next good view, however long the sensor was dark in between."""

    id = "S09"
    quick_runs = 4000
    thorough_runs = 400000
    list_fields = ("path",)
    rule = ("one run = a tracked session over one well-constrained view, in which the pose estimate is disturbed by small random rigid motions (per "
            "batch element), the sensor goes dark and the session is restored from checkpoints in a seeded order; every dark frame must keep the "
            "estimate as it is and every good view must bring it back to the pose the view was mapped at; non-trivial = a disturbance or an outage; "
            "distinct by configuration and events")
    expected_probes = ("odom-icp", "odom-gradicp", "disturbed", "disturbed-then-dark", "pulled-back", "restored", "one-element-disturbed", "frame-with-stale-pose")
    assumptions = ["disturbances move no point further than a fifth of the spacing of the map points, pairs further apart than 0.45 of it are cut off (dist_thresh), and the view fixes all six degrees of freedom",
                   "the solver gets 20 iterations (its default), or more"]

    def view_is_good(self, cfg, dep, K):
        inner = np.zeros(dep.shape[2:4])
        inner[1:-1, 1:-1] = 1  # a disturbed camera may not see the rim
        return all(scene.constraint(dep[b, 0, ..., 0] * inner, K[b, 0], cfg["dsratio"]) >= 0.7 for b in range(len(dep)))

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("icp", "gradicp"), classes=("ICPSLAM", "ICPSLAM", "PointFusion"))
        cfg["numiters"] = rng.choice([20, 20, 30])
        for _ in range(40):
            sc = scene.draw(rng, L=1, rates=0.0)
            if self.view_is_good(cfg, *scene.build(sc)[1:3]):
                break
        path = []
        for _ in range(rng.randint(1, 4 if tier == "quick" else 9)):
            path.append({"dark": rng.random() < 0.4, "disturb": [rng.randrange(1 << 30) if rng.random() < 0.6 else None for _ in range(sc["B"])],
                         "size": rng.choice([0.05, 0.1, 0.2]), "restore": rng.random() < 0.25, "inplace": rng.random() < 0.5,
                         "own": rng.randrange(1 << 30) if rng.random() < 0.3 else None})
        return {"cfg": cfg, "scene": sc, "path": path, "start": rng.randrange(1 << 30) if rng.random() < 0.5 else None}

    def shrinks(self, plan):
        return iter(())

    def execute(self, plan, run):
        _, st = G()
        cfg, spec = plan["cfg"], plan["scene"]
        B = spec["B"]
        rgb, dep, K, P = scene.build(spec)
        if not self.view_is_good(cfg, dep, K):
            raise Discard("the view leaves the camera free to slide")
        gap = min(scene.spacing(dep[b, 0, ..., 0], K[b, 0]) for b in range(B))
        cfg = dict(cfg, dist_thresh=float((0.45 * gap) ** 2))
        run.shape(cfg, plan["path"], B, plan["start"] is None)
        run.probe("odom-" + cfg["odom"])
        truth = P[:, 0]
        slam = make_slam(cfg)
        live = make_frames((rgb, dep, K, P))
        pc, live.poses = slam.step(st.Pointclouds(), live, None, inplace=True)
        prev, est = live, truth.copy()
        for n, e in enumerate(plan["path"]):
            hit = [b for b in range(B) if b < len(e["disturb"]) and e["disturb"][b] is not None]
            for b in hit:
                rs = npr("disturb", e["disturb"][b])
                D = np.eye(4)
                size = e["size"] * gap / (dep[b].max() + 2.0)
                D[:3, :3] = rotation(rs, size)
                D[:3, 3] = rs.uniform(-1, 1, 3) * size
                est[b] = truth[b] @ D
            if hit:
                prev.poses = t32(est[:, None])
                run.fault("pose-disturbed", len(hit))
                run.probe("disturbed")
                if len(hit) < B:
                    run.probe("one-element-disturbed")
                if e["dark"]:
                    run.probe("disturbed-then-dark")
            if e["restore"]:
                slam, (pc, prev) = make_slam(cfg), dump_load((pc, prev))
                run.fault("restart-from-checkpoint")
                run.probe("restored")
            k = 0.0 if e["dark"] else 1.0
            if e["dark"]:
                run.fault("frame-blackout")
            live = make_frames((rgb * k, dep * k, K, P), poses=False)
            if e["own"] is not None:
                # what the frame itself claims is no matter once the session tracks
                live.poses = t32(np.stack([rigid(npr("own", e["own"], b), None, 0.05)[None] for b in range(B)]))
                run.probe("frame-with-stale-pose")
                run.fault("stale-frame-pose")
            m0 = cloud(pc, B)
            pc, q = slam.step(pc, live, prev, inplace=e["inplace"])
            live.poses = q
            prev = live
            run.sim_ms += 33.0
            q = to_np(q)[:, 0].astype(np.float64)
            where = "event %d of %s, %s" % (n, ["dark" if x["dark"] else "good" for x in plan["path"]], cfg)
            if e["dark"]:
                run.check(close(q, est, 1e-4), "dark-frame-moved-camera", lambda: where + ": " + diff_text("pose", q, est))
                dd = compare((cloud(pc, B), None), (m0, None))
                run.check(dd is None, "dark-frame-changed-map", lambda: where + ": " + dd)
            else:
                run.probe("pulled-back")
                off = max(np.abs(est - truth).max(), 1e-9)
                run.check(close(q, truth, 1e-4 + 0.03 * off), "not-pulled-back",
                          lambda: "%s: off by %.6f before, by %.6f after" % (where, off, np.abs(q - truth).max()))
            est = q.copy()
            run.event(n, np.round(q, 3).tolist())
        run.state(cfg["cls"], cfg["odom"], [e["dark"] for e in plan["path"]])


PROPERTIES = [AnyWorldFrame(), PulledBack()]
