"""S11: the form in which frames reach a session (layout, cached maps, copies, restores) makes no difference."""
import numpy as np
import torch

from .. import scene
from ..core import Discard, SimCrash
from ..faults import CrashAt, alloc_faults, is_injected_alloc
from ..tools import close, dump_load, to_np
from .slam import G, SlamProperty, WARM, cloud, draw_cfg, fully, make_frames, make_slam, must_match, note_scene, refusable, solo, t32

MAKES = ["slice", "own", "clone", "restored", "pixels", "there-and-back"]


def grid(shape):
    B, L, H, W = shape
    v, u = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    return np.broadcast_to(np.stack([u, v, np.ones_like(u)], -1), (B, L, H, W, 3))


class FrameForms(SlamProperty):
    id = "S11"
    quick_runs = 4000
    thorough_runs = 400000
    list_fields = ("tries",)
    rule = ("one run = a session whose frames arrive in a drawn form each (channels first or last, cut from a sequence, made alone, cloned, restored, with explicit "
            "pixel positions; derived maps cached before or after the layout change), with failing and interrupted attempts in between, the previous frame "
            "changing its layout behind the session's back; maps and poses must be those of the plain session, and the frames must keep their form and "
            "images; distinct by configuration, faults and forms")
    expected_probes = ("odom-gt", "odom-icp", "odom-gradicp", "channels-first-frame", "mixed-layouts", "previous-frame-changed-layout", "whole-sequence",
                       "failed-step", "interrupted-step") + tuple("frame-" + m for m in MAKES)

    def generate(self, rng, tier):
        cfg = draw_cfg(rng, odoms=("gt", "icp", "gradicp"))
        sc = scene.draw(rng, L=rng.randint(1, 4 if tier == "quick" else 8), rates=0.3, small=True, first_ok=cfg["odom"] != "gt" or rng.random() < 0.7)
        some = lambda: [v for v in WARM if rng.random() < 0.25]
        bias = rng.choice([0.5, 0.5, 1.0])
        forms = [{"cf": rng.random() < bias, "make": rng.choice(MAKES), "before": some(), "after": some(), "inplace": rng.random() < 0.5, "flip": rng.random() < 0.3,
                  "converted": rng.random() < 0.6} for _ in range(sc["L"])]
        tries = [[rng.randrange(sc["L"]), rng.choice(["alloc", "crash"]), round(rng.random(), 6)] for _ in range(rng.choice([0, 0, 1, 2]))]
        return {"cfg": cfg, "scene": sc, "forms": forms, "tries": tries, "whole": rng.random() < 0.2}

    def frame(self, arrays, sel, form):
        """The frames `sel` (a slice) of the recording, in the given form."""
        _, st = G()
        rgb, dep, K, P = arrays
        if form["make"] == "slice":
            f = make_frames(arrays)[:, sel]
        else:
            first = form["cf"] and not form["converted"]
            lay = (lambda x: np.moveaxis(x, -1, 2)) if first else (lambda x: x)
            pix = t32(grid(dep[:, sel].shape[:4])) if form["make"] == "pixels" else None
            f = st.RGBDImages(t32(lay(rgb[:, sel])), t32(lay(dep[:, sel])), t32(K), t32(P[:, sel]), channels_first=first, pixel_pos=pix)
        for v in form["before"]:
            getattr(f, v)
        if form["make"] == "clone":
            f = f.clone()
        elif form["make"] == "restored":
            f = dump_load(f)
        elif form["make"] == "there-and-back":
            f = f.to_channels_first(copy=True).to_channels_last() if not f.channels_first else f.to_channels_last(copy=True).to_channels_first()
        if form["cf"] != f.channels_first:
            f = f.to_channels_first()
        for v in form["after"]:
            getattr(f, v)
        return f

    def intact(self, run, f, form, arrays, sel, when):
        rgb, dep, K, _ = arrays
        lay = (lambda x: np.moveaxis(x, -1, 2)) if form["cf"] else (lambda x: x)
        ok = f.channels_first == form["cf"] and close(to_np(f.rgb_image), lay(rgb[:, sel]), 1e-3) and close(to_np(f.depth_image), lay(dep[:, sel]), 1e-5 * max(1.0, np.abs(dep).max()))
        run.check(ok, "frame-changed-form", lambda: "%s: the frame handed in has another layout or other images" % when)

    def attempt(self, cfg, how, u, args, run):
        probe = dump_load(args)
        try:
            if how == "alloc":
                with alloc_faults() as c:
                    make_slam(cfg).step(*probe, inplace=False)
                with alloc_faults([min(int(u * c.n), max(c.n - 1, 0))]):
                    make_slam(cfg).step(*args, inplace=False)
            else:
                with CrashAt(None) as c:
                    make_slam(cfg).step(*probe, inplace=False)
                with CrashAt(min(int(u * c.n), max(c.n - 1, 0))):
                    make_slam(cfg).step(*args, inplace=False)
        except SimCrash:
            run.probe("interrupted-step")
            run.fault("crash-in-step")
        except RuntimeError as e:
            if not is_injected_alloc(e):
                raise
            run.probe("failed-step")
            run.fault("failed-allocation")

    def execute(self, plan, run):
        _, st = G()
        cfg, spec, forms = plan["cfg"], plan["scene"], plan["forms"]
        B, L = spec["B"], spec["L"]
        arrays = scene.build(spec)
        note_scene(run, spec)
        run.shape(cfg, forms, plan["tries"], plan["whole"])
        run.probe("odom-" + cfg["odom"])
        reference = lambda a: solo(cfg, a)
        want, err = fully(lambda: reference(arrays))
        if err is not None:
            raise Discard("the plain session fails: %s" % type(err).__name__) if refusable(cfg, spec, err) else err
        slam = make_slam(cfg)
        if plan["whole"]:
            run.probe("whole-sequence")
            form = forms[0]
            f = self.frame(arrays, slice(0, L), form)
            pc, p = slam(f)
            self.note(run, [form])
            self.intact(run, f, form, arrays, slice(0, L), "whole sequence %s" % form)
            got = cloud(pc, B), to_np(p).astype(np.float64)
        else:
            pc, prev, rec = st.Pointclouds(), None, []
            self.note(run, forms[:L])
            for s in range(L):
                form = forms[s]
                f = self.frame(arrays, slice(s, s + 1), form)
                for at, how, u in plan["tries"]:
                    if at == s:
                        self.attempt(cfg, how, u, (pc, f, prev), run)
                        self.intact(run, f, form, arrays, slice(s, s + 1), "step %d failed, frame %s" % (s, form))
                pc, p = slam.step(pc, f, prev, inplace=form["inplace"])
                self.intact(run, f, form, arrays, slice(s, s + 1), "step %d, frame %s" % (s, form))
                f.poses = p
                rec.append(to_np(p)[:, 0].astype(np.float64))
                prev = f if cfg["odom"] != "gt" else None
                if prev is not None and form["flip"]:
                    prev = prev.to_channels_last_() if prev.channels_first else prev.to_channels_first_()
                    run.probe("previous-frame-changed-layout")
                run.event(s, [len(c["points"]) for c in cloud(pc, B)])
            got = cloud(pc, B), np.stack(rec, 1)
        must_match(run, got, want, arrays, reference, "form-matters", "%s, frames %s" % (cfg, forms[:1] if plan["whole"] else forms[:L]))
        run.state(cfg["cls"], cfg["odom"], [len(c["points"]) for c in got[0]])

    def note(self, run, forms):
        for f in forms:
            run.probe("frame-" + f["make"])
            if f["cf"]:
                run.probe("channels-first-frame")
        if len({f["cf"] for f in forms}) > 1:
            run.probe("mixed-layouts")
        run.nontrivial = True


PROPERTIES = [FrameForms()]
