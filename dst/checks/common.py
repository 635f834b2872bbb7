"""Parts shared by the checks."""
import pickle
REAL = [
    "all Python modules of eoxmagmod", "C extensions _pymm, _pyqd, _pysunpos, _pytimeconv", "libqdipole (Fortran and C)",
    "numpy", "spacepy.pycdf and the CDF library", "libgfortran run-time", "CPython",
]
STUB = [
    "memory allocator front end (simos.so around glibc malloc)", "open/read system calls of watched files (simos.so)",
    "wall clock (simos.so)",
]
FILLS = [0x0, 0xFFFFFFFFFFFFFFFF, 0x7FF8000000000001, 0x4141414141414141, 0x7F7F7F7F7F7F7F7F, 0x3FF0000000000000, 0xC08F400000000000]
ASSUME = [
    "the code under test is rebuilt from the working tree with function-entry hooks, otherwise as shipped",
    "results of the same operation are compared with a tolerance of 1e-10 relative",
]


def snapshot(obj):
    return pickle.dumps(obj)
