"""Prepares the synthetic CDF products: python -m sim.world_cdf PACKAGE DIRECTORY"""
import os
import sys
import numpy as np
from spacepy import pycdf
from . import contents

EPOCH_2000 = 63113904000000.0


def write(path, arrays):
    pycdf.lib.set_backward(False)
    with pycdf.CDF(path, "") as cdf:
        for name, (time, nm, coef) in arrays.items():
            var, suffix = name.split("_")
            full = suffix in ("1", "2")
            tname, nname = ("t_" + name, "nm_" + name) if full else ("t_" + var, "nm_" + var)
            if tname not in cdf:
                cdf.new(tname, type=pycdf.const.CDF_EPOCH, dims=[len(time)], dimVarys=[True])
                cdf.raw_var(tname)[...] = (time + EPOCH_2000)[None]
                cdf.new(nname, data=nm[None] if full else nm, type=pycdf.const.CDF_INT2)
            cdf.new(name, data=coef[None], type=pycdf.const.CDF_DOUBLE)


def main():
    _, directory = sys.argv[1:3]
    os.makedirs(directory)
    for base in range(contents.MMA_BASES):
        for start in range(contents.MMA_STEPS):
            for stop in range(start + 1, contents.MMA_STEPS + 1):
                for extra in (0, 1) if base in (0, 5) and stop < contents.MMA_STEPS else (0,):
                    write(os.path.join(directory, f"{base}_{start}_{stop}_{extra}.cdf"), contents.mma_arrays(base, start, stop, extra))


if __name__ == "__main__":
    main()
