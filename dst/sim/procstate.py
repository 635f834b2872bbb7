"""State of the process which no call of the package may change."""
import ctypes
import ctypes.util
import decimal
import gc
import locale
import os
import random
import signal
import sys
import time
import warnings
import numpy as np

LIBM = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")
SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGSEGV, signal.SIGHUP, signal.SIGCHLD, signal.SIGUSR1)
TINY = np.array([2.2250738585072014e-308])


def error_state(num):
    """ One of the ways an application may have floating-point errors handled. """
    return {key: ("ignore", "warn")[(num >> idx) & 1] for idx, key in enumerate(("divide", "over", "under", "invalid"))}


def snapshot():
    return {
        "floating-point error handling": (np.geterr(), np.geterrcall()),
        "rounding": LIBM.fegetround(),
        "floating-point traps": LIBM.fegetexcept(),
        "denormal numbers": bool((TINY*0.5 != 0.0).all()),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "random generators": (hash(random.getstate()), hash(np.random.get_state()[1].tobytes()), np.random.get_state()[2]),
        "warning filters": list(warnings.filters),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "time zone": (time.tzname, time.timezone),
        "signal handlers": [signal.getsignal(num) for num in SIGNALS],
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "interpreter": (sys.getrecursionlimit(), sys.getswitchinterval(), sys.gettrace(), sys.getprofile(), list(sys.path)),
        "streams": [id(stream) for stream in (sys.stdin, sys.stdout, sys.stderr)],
        "decimal context": repr(decimal.getcontext().prec),
        "file creation mask": _umask(),
    }


def _umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


def changes(before):
    now = snapshot()
    return "; ".join(f"{name}: {_text(now[name], value)} instead of {_text(value, now[name])}" for name, value in before.items() if now[name] != value)


def _text(value, other):
    if isinstance(value, dict):
        value = {key: item for key, item in value.items() if key not in other or other[key] != item}
    return str(value)[:300]
