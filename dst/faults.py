"""Fault injection seams: the allocator, arbitrary crash points, and storage."""
import ctypes
import os
import subprocess
import sys

from . import env
from .core import HarnessError, SimCrash

# ---------------------------------------------------------------- allocator


def _mode_class():
    from torch.utils._python_dispatch import TorchDispatchMode

    class AllocFaults(TorchDispatchMode):
        """Counts tensor-producing ATen operations; the ones in `at` fail as a failed allocation does."""

        def __init__(self, at=()):
            super().__init__()
            self.at = set(at)
            self.n = 0
            self.fired = 0

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            schema = func._schema
            allocates = (
                not schema.is_mutable
                and len(schema.returns) > 0
                and all(r.alias_info is None for r in schema.returns)
                and any("Tensor" in str(r.type) for r in schema.returns)
            )
            if allocates:
                i = self.n
                self.n += 1
                if i in self.at:
                    self.fired += 1
                    raise RuntimeError(
                        "[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: can't allocate memory (injected fault)"
                    )
            return func(*args, **(kwargs or {}))

    return AllocFaults


_AllocFaults = None


def alloc_faults(at=()):
    global _AllocFaults
    if _AllocFaults is None:
        _AllocFaults = _mode_class()
    return _AllocFaults(at)


def is_injected_alloc(e):
    return isinstance(e, RuntimeError) and "injected fault" in str(e)


# ---------------------------------------------------------------- crash points


class CrashAt(object):
    """Context manager: raises SimCrash before the k-th traced gradslam line (k=None only counts)."""

    def __init__(self, k=None):
        self.k = k
        self.n = 0
        self.fired = False

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(env.SRC):
            return None
        if event == "line":
            i = self.n
            self.n += 1
            if self.k is not None and i == self.k and not self.fired:
                self.fired = True
                raise SimCrash("crash before gradslam line event %d" % i)
        return self._trace

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


# ---------------------------------------------------------------- storage

KINDS = {"EIO": 1, "EMFILE": 2, "ENOENT": 3, "EACCES": 4, "EINTR": 5, "short": 6, "eof": 7, "ENOMEM": 8}
_lib = None


def shim_path():
    return os.path.join(env.BUILD, "fsshim-%d.so" % os.getuid())


def build_shim():
    src = os.path.join(env.VERIF, "native", "fsshim.c")
    out = shim_path()
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(env.BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", tmp, src, "-ldl", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError("cannot build the storage seam: " + p.stdout.decode(errors="replace"))
    os.replace(tmp, out)
    return out


def ensure_preloaded(argv):
    """Re-executes the interpreter once with the storage seam preloaded."""
    so = build_shim()
    if os.environ.get("LD_PRELOAD", "").split(":")[0] == so:
        return
    e = dict(os.environ)
    e["LD_PRELOAD"] = so
    os.execve(sys.executable, [sys.executable, "-m", "dst"] + argv, e)


def fs():
    global _lib
    if _lib is None:
        if not os.environ.get("LD_PRELOAD", "").startswith(env.BUILD):
            raise HarnessError("the storage seam is not loaded")
        l = ctypes.CDLL(None)
        l.dst_fs_prefix.argtypes = [ctypes.c_char_p]
        l.dst_fs_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long]
        l.dst_fs_permute.argtypes = [ctypes.c_uint64]
        for f in ("ops", "opens", "reads", "dirs", "permuted"):
            getattr(l, "dst_fs_" + f).restype = ctypes.c_long
        l.dst_fs_fired.restype = ctypes.c_long
        _lib = l
    return _lib


class Storage(object):
    """The simulated disk below one scratch directory."""

    def __init__(self, prefix, perm_seed):
        self.l = fs()
        self.prefix = prefix
        self.perm_seed = perm_seed | 1

    def __enter__(self):
        self.l.dst_fs_prefix(self.prefix.encode())
        self.l.dst_fs_disarm()
        self.l.dst_fs_reset()
        self.l.dst_fs_permute(self.perm_seed)
        return self

    def __exit__(self, *a):
        self.l.dst_fs_disarm()
        self.l.dst_fs_prefix(b"")
        return False

    def permute(self, seed):
        self.perm_seed = seed | 1
        self.l.dst_fs_permute(self.perm_seed)

    def arm(self, faults):
        """faults: list of [operation number, kind name, arg]. Restarts the numbering."""
        self.l.dst_fs_reset()
        for op, kind, arg in faults:
            self.l.dst_fs_arm(int(op), KINDS[kind], int(arg))

    def quiet(self):
        """Disarms, and returns (operations made, {kind: times fired})."""
        ops = self.l.dst_fs_ops()
        fired = {k: self.l.dst_fs_fired(v) for k, v in KINDS.items() if self.l.dst_fs_fired(v)}
        self.l.dst_fs_disarm()
        self.l.dst_fs_permute(self.perm_seed)
        self.l.dst_fs_reset()
        return ops, fired
