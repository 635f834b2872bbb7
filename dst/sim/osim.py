"""Python side of the operating system seam (simos.c)."""
import ctypes
import os

LOADED = None

KINDS = {"EIO": 1, "EINTR": 2, "SHORT": 3, "EOF": 4, "ENOENT": 5, "EACCES": 6, "EMFILE": 7, "ENOMEM": 8, "STALE": 9}
KIND_NAMES = {value: key for key, value in KINDS.items()}
CLS_TARGET, CLS_NUMPY, CLS_PY, CLS_FORTRAN, CLS_OBJ, CLS_NPOBJ = 1, 2, 4, 8, 16, 32


class OSim:
    def __init__(self, path):
        self.lib = lib = ctypes.CDLL(path)
        c_long_p = ctypes.POINTER(ctypes.c_long)
        lib.sim_alloc_plan.argtypes = [ctypes.c_int, c_long_p, ctypes.c_int, ctypes.c_size_t]
        lib.sim_fill.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64]
        lib.sim_live_blocks.restype = ctypes.c_long
        lib.sim_live_bytes.restype = ctypes.c_long
        lib.sim_live_of.restype = ctypes.c_long
        lib.sim_check_live.restype = ctypes.c_long
        lib.sim_sched_init.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_double, c_long_p, ctypes.c_long, ctypes.c_int]
        lib.sim_sched_run.argtypes = [ctypes.c_double]
        lib.sim_sched_steps.restype = ctypes.c_long
        lib.sim_sched_cyields.restype = ctypes.c_long
        lib.sim_sched_log.argtypes = [c_long_p, ctypes.c_long]
        lib.sim_sched_log.restype = ctypes.c_long
        lib.sim_watch.argtypes = [ctypes.c_char_p]
        lib.sim_io_plan.argtypes = [c_long_p, ctypes.POINTER(ctypes.c_int), c_long_p, ctypes.c_int, ctypes.c_long, ctypes.c_long]
        lib.sim_clock.argtypes = [ctypes.c_long]
        lib.sim_add_module.argtypes = [ctypes.c_char_p, ctypes.c_int]
        lib.sim_dirty_stack.argtypes = [ctypes.c_uint64]
        # calls which do not block are made with the interpreter lock held
        self.py = ctypes.PyDLL(path)
        lib.sim_sig_sites.argtypes = [c_long_p, ctypes.c_long]
        lib.sim_sig_sites.restype = ctypes.c_long
        self.py.sim_sig_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long]

    def var(self, name):
        return ctypes.c_long.in_dll(self.lib, name)

    def get(self, name):
        return self.var(name).value

    def add_modules(self):
        self.lib.sim_add_module(b"_pymm.", CLS_TARGET)
        self.lib.sim_add_module(b"_pyqd.", CLS_TARGET)
        self.lib.sim_add_module(b"_pysunpos.", CLS_TARGET)
        self.lib.sim_add_module(b"_pytimeconv.", CLS_TARGET)
        self.lib.sim_add_module(b"libqdipole", CLS_TARGET)
        self.lib.sim_add_module(b"_multiarray_umath", CLS_NUMPY)
        self.lib.sim_add_module(b"libgfortran", CLS_FORTRAN)
        self.lib.sim_add_module(b"", CLS_PY)

    # memory
    def alloc_plan(self, mask, idx, min_size=0):
        arr = (ctypes.c_long * max(1, len(idx)))(*idx)
        self.lib.sim_alloc_plan(mask, arr, len(idx), min_size)

    def alloc_off(self):
        self.lib.sim_alloc_plan_off()
        return self.get("sim_alloc_seen"), self.get("sim_alloc_failed")

    def fill(self, on, fresh=0, released=0):
        self.lib.sim_fill(int(on), fresh, released)

    # files
    def io_plan(self, faults, short_all=0, eof_at=-1):
        n = len(faults)
        ops = (ctypes.c_long * max(1, n))(*[f[0] for f in faults])
        kinds = (ctypes.c_int * max(1, n))(*[KINDS[f[1]] for f in faults])
        args = (ctypes.c_long * max(1, n))(*[f[2] if len(f) > 2 else 0 for f in faults])
        self.lib.sim_io_plan(ops, kinds, args, n, short_all, eof_at)

    def io_off(self):
        self.lib.sim_io_off()
        fired = (ctypes.c_long * 16).in_dll(self.lib, "sim_io_fired")
        return self.get("sim_io_ops"), {KIND_NAMES[i]: fired[i] for i in range(1, 10) if fired[i]}

    def open_files(self):
        return self.get("sim_open_fds")

    # signals
    def sig_arm(self, prefix, signum, at):
        """ Signal pending at the given instruction of the package (-1 only counts). """
        if self.py.sim_sig_arm(prefix.encode(), signum, at):
            raise RuntimeError("signals cannot be simulated")

    def sig_off(self):
        self.py.sim_sig_disarm()
        return self.get("sim_sig_seen"), self.get("sim_sig_raised")

    def sig_sites(self):
        """ Numbers of the first and last execution of each place. """
        limit = 1 << 14
        arr = (ctypes.c_long * (2*limit))()
        n = self.lib.sim_sig_sites(arr, limit)
        return sorted((arr[2*i], arr[2*i + 1]) for i in range(n))

    # scheduler
    def sched_init(self, n, seed, prob, script=None):
        flat = [v for pair in (script or []) for v in pair]
        arr = (ctypes.c_long * max(1, len(flat)))(*flat)
        self.lib.sim_sched_init(n, seed & (2**64 - 1), prob, arr, len(flat)//2, 0 if script is None else 1)

    def sched_log(self, limit=65536):
        arr = (ctypes.c_long * (2*limit))()
        n = self.lib.sim_sched_log(arr, limit)
        return [[arr[2*i], arr[2*i + 1]] for i in range(n)]


def fds():
    """ Open file descriptors of the process. """
    out = {}
    for name in os.listdir("/proc/self/fd"):
        try:
            out[int(name)] = os.readlink("/proc/self/fd/" + name)
        except OSError:
            pass
    return out
