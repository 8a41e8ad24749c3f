"""Import the real gradslam from /repo with the single third-party stub it needs.

open3d (a visualiser) has no build for this Python; gradslam imports it at the top of
one module and uses it only in ``Pointclouds.open3d``.  A stub with the two names that
function touches is installed, everything else is real code.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "gradslam") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")


def _install_open3d_stub():
    try:
        import importlib.util

        if importlib.util.find_spec("open3d") is not None:
            return
    except Exception:
        pass
    import numpy as np

    class PointCloud(object):
        def __init__(self):
            self.points = None
            self.colors = None
            self.normals = None

    mod = types.ModuleType("open3d")
    mod.__dst_stub__ = True
    mod.geometry = types.ModuleType("open3d.geometry")
    mod.utility = types.ModuleType("open3d.utility")
    mod.geometry.PointCloud = PointCloud
    mod.utility.Vector3dVector = lambda a: np.array(a, dtype=float)
    sys.modules["open3d"] = mod
    sys.modules["open3d.geometry"] = mod.geometry
    sys.modules["open3d.utility"] = mod.utility


_loaded = False


def load():
    """Imports torch and gradslam (once) and pins every ambient source of variation."""
    global _loaded
    if _loaded:
        return
    warnings.simplefilter("ignore")
    _install_open3d_stub()
    sys.path.insert(0, REPO)
    from . import sched

    sched.install_lock_seam()
    import cv2
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    cv2.setNumThreads(0)
    import gradslam

    assert os.path.abspath(gradslam.__file__).startswith(SRC), gradslam.__file__
    import gradslam.config
    import gradslam.datasets
    import gradslam.odometry
    import gradslam.slam
    import gradslam.slam.fusionutils
    import gradslam.structures

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    _loaded = True
