"""O01: tracking providers answer each call from that call's arguments alone, and never for the worse."""
import numpy as np
import torch

from .. import scene
from ..core import Discard, Property, SimCrash
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..tools import close, diff_text, dump_load, npr, rotation, same_bits, to_np
from .motion import pinned
from .slam import G, make_frames, note_scene, shrink_scene, t32


RIGID = 2e-5  # of float32 motions multiplied up over the iterations of a call


def cost(src, tgt, nrm, T):
    """Point-to-plane error of src moved by T, in float64."""
    p = src @ T[:3, :3].T + T[:3, 3]
    i = ((p[:, None] - tgt[None]) ** 2).sum(-1).argmin(1)
    return float((((tgt[i] - p) * nrm[i]).sum(-1) ** 2).sum())


def guess(seed, size):
    rs = npr("guess", seed)
    M = np.eye(4)
    M[:3, :3] = rotation(rs, size)
    M[:3, 3] = rs.uniform(-1, 1, 3) * size
    return M


class Alignment(Property):
    id = "O01"
    quick_runs = 5000
    thorough_runs = 500000
    list_fields = ("calls",)
    real = ["gradslam.odometry", "gradslam.structures", "gradslam.geometry", "chamferdist nearest neighbours"]
    stubs = ["camera and scene (simulated)", "open3d"]
    rule = ("one run = 1-6 calls (more in thorough) on one tracking provider and on the alignment functions, over simulated views, with batches drawn in "
            "any combination, starting guesses, failing allocations and crashes; each answer must be the one a new provider gives for each element "
            "alone, rigid, and (LM) no worse than its starting guess; a failed call leaves its inputs as they were; distinct by provider, calls and faults")
    expected_probes = ("provider-icp", "provider-gradicp", "provider-gt", "no-guess", "guess", "batch", "failed-call", "interrupted-call", "provider-restored", "cost-checked")
    assumptions = ["views fix all six degrees of freedom (otherwise rounding decides where the camera slides)"]

    def generate(self, rng, tier):
        kind = rng.choice(["icp", "icp", "gradicp", "gradicp", "gt"])
        sc = scene.draw(rng, B=rng.choice([1, 2, 3]), L=rng.randint(2, 4), rates=0.25, kinds=["dropout", "occluded", "noise", "stalled"])
        par = {"numiters": rng.choice([1, 2, 5, 20]), "damp": rng.choice([1e-8, 1e-4, 1e-2]), "dist_thresh": rng.choice([None, None, 0.05, 1])}
        if kind == "gradicp":
            par.update(lambda_max=rng.choice([2.0, 3]), B=rng.choice([1.0, 2]), B2=rng.choice([1.0, 3]), nu=rng.choice([200.0, 50]))
        calls = []
        for _ in range(rng.randint(1, 6 if tier == "quick" else 14)):
            calls.append({"how": rng.choice(["provide", "provide", "function"]), "frame": rng.randrange(sc["L"]),
                          "pick": [rng.randrange(sc["B"]) for _ in range(rng.randint(1, 3))], "guess": rng.randrange(1 << 30) if rng.random() < 0.7 else None,
                          "size": rng.choice([0.0, 0.01, 0.05]), "restore": rng.random() < 0.2,
                          "tries": [[rng.choice(["alloc", "crash"]), round(rng.random(), 6)] for _ in range(rng.choice([0, 0, 1, 2]))]})
        return {"kind": kind, "par": par, "scene": sc, "calls": calls}

    def shrinks(self, plan):
        return shrink_scene(plan)

    def new(self, kind, par):
        import gradslam.odometry as od

        if kind == "gt":
            return od.GroundTruthOdometryProvider()
        return (od.ICPOdometryProvider if kind == "icp" else od.GradICPOdometryProvider)(**par)

    def function(self, kind):
        from gradslam.odometry import icputils

        return icputils.point_to_plane_ICP if kind == "icp" else icputils.point_to_plane_gradICP

    def faulty(self, run, tries, fn, inputs):
        """fn under each fault; the inputs must not change."""
        kept = [x.clone() for x in inputs]
        for how, u in tries:
            try:
                if how == "alloc":
                    with alloc_faults() as c:
                        fn()
                    with alloc_faults([min(int(u * c.n), max(c.n - 1, 0))]):
                        fn()
                else:
                    with CrashAt(None) as c:
                        fn()
                    with CrashAt(min(int(u * c.n), max(c.n - 1, 0))):
                        fn()
            except SimCrash:
                run.probe("interrupted-call")
                run.fault("crash-in-call")
            except RuntimeError as e:
                if not is_injected_alloc(e):
                    raise
                run.probe("failed-call")
                run.fault("allocation-failure")
            run.check(all(same_bits(a, b) for a, b in zip(kept, inputs)), "input-modified", "by a call that failed (%s)" % how)
        return kept

    def execute(self, plan, run):
        _, st = G()
        kind, par, spec = plan["kind"], plan["par"], plan["scene"]
        B, L = spec["B"], spec["L"]
        arrays = scene.build(spec)
        note_scene(run, spec)
        run.shape(kind, par, plan["calls"])
        run.probe("provider-" + kind)
        rgb, dep, K, P = arrays
        if kind != "gt" and not pinned((rgb, dep, K, P), 0.15):
            raise Discard("a view leaves the camera free to slide")
        f = make_frames(arrays)
        gv, gn, ok = f.global_vertex_map, f.global_normal_map, f.valid_depth_mask[..., 0].bool()
        pts = [[gv[b, l][ok[b, l]].clone() for l in range(L)] for b in range(B)]
        nrm = [[gn[b, l][ok[b, l]].clone() for l in range(L)] for b in range(B)]
        run.nontrivial = True
        prov = self.new(kind, par)
        for n, c in enumerate(plan["calls"]):
            pick, l = [b % B for b in c["pick"]], c["frame"] % L
            where = "call %d (%s, frame %d, elements %s), %s %s" % (n, c["how"], l, pick, kind, par)
            if c["restore"]:
                prov = dump_load(prov)
                run.probe("provider-restored")
                run.fault("restart-from-checkpoint")
            if len(pick) > 1:
                run.probe("batch")
            if kind == "gt":
                self.ground_truth(run, c, prov, f, P, pick, l, where)
                continue
            M = np.eye(4) if c["guess"] is None else guess(c["guess"], c["size"])
            run.probe("no-guess" if c["guess"] is None else "guess")
            src = [(pts[b][l].double() @ torch.tensor(M[:3, :3].T) + torch.tensor(M[:3, 3])).float() for b in pick]
            tgt, nn = [pts[b][0] for b in pick], [nrm[b][0] for b in pick]
            if c["how"] == "provide":
                maps = st.Pointclouds(points=[x.clone() for x in tgt], normals=[x.clone() for x in nn])
                frames = st.Pointclouds(points=[x.clone() for x in src])
                if c["guess"] is not None and c["guess"] % 2:
                    maps.points_padded, frames.points_padded
                held = maps.points_list + maps.normals_list + frames.points_list
                self.faulty(run, c["tries"], lambda: prov.provide(maps, frames), held)
                kept = [x.clone() for x in held]
                got = prov.provide(maps, frames)
                run.check(all(same_bits(a, b) for a, b in zip(kept, held)), "input-modified", where)
                run.check(tuple(got.shape) == (len(pick), 1, 4, 4), "wrong-shape", lambda: "%s: %s" % (where, tuple(got.shape)))
                got = got[:, 0]
                want = torch.cat([self.new(kind, par).provide(st.Pointclouds(points=[tgt[i].clone()], normals=[nn[i].clone()]), st.Pointclouds(points=[src[i].clone()]))[:, 0]
                                  for i in range(len(pick))])
            else:
                fn, start = self.function(kind), None if c["guess"] is None else t32(guess(c["guess"] + 1, c["size"]))
                src, tgt, nn = src[:1], tgt[:1], nn[:1]
                args = [src[0][None].clone(), tgt[0][None].clone(), nn[0][None].clone()] + ([start] if start is not None else [])
                self.faulty(run, c["tries"], lambda: fn(*args, **par), args)
                kept = [x.clone() for x in args]
                got, idx = fn(*args, **par)
                run.check(all(same_bits(a, b) for a, b in zip(kept, args)), "input-modified", where)
                run.check(idx.numel() <= len(src[0]) and (not idx.numel() or 0 <= int(idx.min()) and int(idx.max()) < len(tgt[0])), "wrong-indices", where)
                got = got[None]
                S = np.eye(4) if start is None else to_np(start).astype(np.float64)
                at = t32(to_np(src[0]).astype(np.float64) @ S[:3, :3].T + S[:3, 3])
                same = dict(par)
                part = self.new(kind, same).provide(st.Pointclouds(points=[tgt[0].clone()], normals=[nn[0].clone()]), st.Pointclouds(points=[at]))[0]
                want = t32(to_np(part).astype(np.float64) @ S)
            got, want = to_np(got).astype(np.float64), to_np(want).astype(np.float64)
            run.event(n, np.round(got, 3).tolist())
            run.check(np.isfinite(got).all(), "not-finite", where)
            if not close(got, want, 2e-4):
                # a decision tied at float precision? (nearest neighbour, cut-off, acceptance)
                if not self.settled(kind, par, src, tgt, nn, c["how"], None if c["how"] == "provide" else S, want):
                    run.count("tied-calls")
                    continue
                run.check(False, "depends-on-history-or-batch", lambda: "%s: %s" % (where, diff_text("motion", got, want)))
            run.stats["checks"] += 1
            for i in range(len(got)):
                R = got[i, :3, :3]
                run.check(close(R @ R.T, np.eye(3), RIGID) and close(got[i, 3], [0, 0, 0, 1], 1e-6), "not-rigid", lambda: "%s: %s" % (where, got[i]))
                if kind == "icp" and par["dist_thresh"] is None:
                    s, t, m = (to_np(x[i]).astype(np.float64) for x in (src, tgt, nn))
                    c0 = cost(s, t, m, np.eye(4) if c["how"] == "provide" else S)
                    c1 = cost(s, t, m, got[i])
                    run.probe("cost-checked")
                    run.check(c1 <= c0 * (1 + 1e-3) + 1e-7, "worse-than-start", lambda: "%s: error %.9f, started at %.9f" % (where, c1, c0))
            run.state(kind, c["how"], l, len(pick))

    def settled(self, kind, par, src, tgt, nn, how, S, want):
        _, st = G()
        for k in range(8):
            rs = npr("settle", k)
            for i in range(len(src)):
                x = to_np(src[i]).astype(np.float64)
                if S is not None:
                    x = x @ S[:3, :3].T + S[:3, 3]
                x = t32(x * (1 + (1e-6 if k % 2 else 1e-5) * rs.uniform(-1, 1, x.shape)))
                T = self.new(kind, par).provide(st.Pointclouds(points=[tgt[i].clone()], normals=[nn[i].clone()]), st.Pointclouds(points=[x]))[0, 0]
                T = to_np(T).astype(np.float64)
                if not close(T if S is None else T @ S, want[i], 1e-3):
                    return False
        return True

    def ground_truth(self, run, c, prov, f, P, pick, l, where):
        a, b = f[:, 0], f[:, l]
        held = [a.poses, b.poses]
        self.faulty(run, c["tries"], lambda: prov.provide(a, b), held)
        kept = [x.clone() for x in held]
        got = to_np(prov.provide(a, b)).astype(np.float64)
        run.check(all(same_bits(x, y) for x, y in zip(kept, held)), "input-modified", where)
        run.check(close(got, np.linalg.inv(P[:, :1]) @ P[:, l:l + 1], 1e-4), "wrong-relative-pose", where)
        run.event(np.round(got, 3).tolist())


PROPERTIES = [Alignment()]
