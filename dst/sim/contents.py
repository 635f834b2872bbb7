"""Catalogue of the file contents used by the simulated executions.

A token names a content; contents are a pure function of the token and of the
data files of the tree under test (CDF contents are prepared once per run by
world_cdf.py).
"""
import json
import os
import re
import numpy as np
from .values import rng_of

DATA = {
    "chaos7": "CHAOS-7.18_core.shc", "chaos7p": "CHAOS-7.18_core_extrapolated.shc",
    "chaos8": "CHAOS-8.1_core.shc", "chaos8p": "CHAOS-8.1_core_extrapolated.shc",
    "chaos8s": "CHAOS-8.1_static.shc", "igrf12": "IGRF12.shc", "igrf13": "IGRF13.shc",
    "igrf14": "IGRF14.shc", "lcs1": "LCS-1.shc", "mf7": "MF7.shc", "sifm": "SIFM.shc",
    "wmm15": "WMM2015v2.COF", "igrf11": "igrf11coeffs.txt", "emmsv": "EMM-720_V3p0_secvar.cof",
    "mio8": "CHAOS-8.1_ionosphere.txt",
    "apex2015": "apexsh_1995-2015.txt", "apex2020": "apexsh_1980-2020.txt",
    "apex2025": "apexsh_1980-2025.txt", "apex2030": "apexsh_1980-2030.txt",
}
TESTDATA = {
    "mio_t": "TEST_MIO_SHA.txt", "mma2c": "TEST_MMA_SHA_2C.cdf", "mma2f": "TEST_MMA_SHA_2F.cdf",
    "mmach": "TEST_CHAOS_MMA.cdf",
}

_cache = {}
PKG = None      # path of the package under test
CDFDIR = None   # prepared CDF files


def setup(pkg, cdfdir=None):
    global PKG, CDFDIR
    PKG, CDFDIR = pkg, cdfdir


def content(token):
    """ Bytes of the given content. """
    if token.startswith("dmg|"):    # damaged content: dmg|<damages>|<token>
        _, damages, base = token.split("|", 2)
        data = content(base)
        for item in json.loads(damages):
            data = damage(data, *item)
        return data
    data = _cache.get(token)
    if data is None:
        data = _cache[token] = _content(token)
    return data


def _read(path):
    with open(path, "rb") as file_in:
        return file_in.read()


def _content(token):
    if token in DATA:
        return _read(os.path.join(PKG, "eoxmagmod", "data", DATA[token]))
    if token in TESTDATA:
        return _read(os.path.join(PKG, "eoxmagmod", "magnetic_model", "tests", "data", TESTDATA[token]))
    kind, *args = token.split(":")
    if kind == "cdf":
        return _read(os.path.join(CDFDIR, args[0] + ".cdf"))
    if kind == "cut":      # content of an other token cut at the given permille
        base = content(":".join(args[1:]))
        return base[:len(base)*int(args[0])//1000]
    if kind == "cutb":     # content of an other token cut at the given byte
        base = content(":".join(args[1:]))
        return base[:int(args[0])]
    if kind == "flip":     # characters replaced: flip:<seed>:<n>:<token>
        base = bytearray(content(":".join(args[2:])))
        rng = rng_of(int(args[0]), 5)
        for idx in rng.integers(0, len(base), int(args[1])):
            base[idx] = int(rng.choice(list(b"x-+.eE9 \n0#")))
        return bytes(base)
    if kind == "tok":       # a word replaced: tok:<position>:<word>:<token>
        base = content(":".join(args[2:]))
        words, pos = list(re.finditer(rb"\S+", base)), int(args[0])
        word = words[pos % len(words)]
        return base[:word.start()] + args[1].encode() + base[word.end():]
    if kind == "alt":       # other decimal digits, the same size
        swap = bytes.maketrans(b"37", b"73")
        return re.sub(rb"\.\d+", lambda m: m[0].translate(swap), content(":".join(args)))
    if kind == "empty":
        return b""
    if kind == "junk":
        return bytes(rng_of(int(args[0]), 6).integers(0, 256, int(args[1]), dtype="u1"))
    if kind == "text":
        return ":".join(args).replace("|", "\n").encode("ascii")
    args = [float(arg) if "." in arg else int(arg) for arg in args]
    return {"shc": _shc, "wmm": _wmm, "igrf": _igrf, "emms": _emm_static, "emmv": _emm_secvar,
            "mio": _mio, "apex": _apex}[kind](*args).encode("ascii")


def damage(data, how, *args):
    """ Content after one damage. Positions are given as fractions of the size
    or as line numbers.
    """
    def _pos(frac):
        return min(len(data), int(frac*len(data)))

    if how == "cut":
        return data[:_pos(args[0])]
    if how == "zero":       # a block which has never been written
        pos = _pos(args[0])
        size = len(data[pos:pos + args[1]])
        return data[:pos] + b"\0"*size + data[pos + size:]
    if how == "lose":
        pos = _pos(args[0])
        return data[:pos] + data[pos + args[1]:]
    if how == "again":      # a block written twice
        pos = _pos(args[0])
        return data[:pos + args[1]] + data[pos:]
    if how == "stale":      # a block of an older version
        pos, old = _pos(args[0]), content(args[2])
        return data[:pos] + old[pos:pos + args[1]] + data[pos + len(old[pos:pos + args[1]]):]
    if how == "torn":       # an interrupted rewriting in place
        pos = _pos(args[0])
        return data[:pos] + content(args[1])[pos:]
    if how == "tail":       # the end of a longer older version left
        return data + content(args[0])[len(data):]
    if how == "zeros":
        return data + b"\0"*args[0]
    if how == "twice":
        return data + data[_pos(args[0]):]
    if how == "digit":      # the first digit following the position
        match = re.compile(rb"[0-9]").search(data, _pos(args[0]))
        if match:
            data = data[:match.start()] + b"%d" % ((int(match[0]) + args[1]) % 10) + data[match.end():]
        return data
    if how == "char":
        pos = _pos(args[0])
        return data[:pos] + args[1].encode("latin-1") + data[pos + 1:]
    if how == "bit" and data:
        pos = min(_pos(args[0]), len(data) - 1)
        return data[:pos] + bytes([data[pos] ^ (1 << args[1])]) + data[pos + 1:]
    lines = data.split(b"\n")
    last = lines.pop() if lines else b""
    if not lines:
        return data
    if how == "crlf":
        return b"\r\n".join(line.rstrip(b"\r") for line in lines) + b"\r\n" + last
    if how == "spaces":
        return b"".join(line + b"  \n" for line in lines) + last
    if how == "novalid":    # header without the optional values
        head = next((idx for idx, line in enumerate(lines) if line.split(b"#")[0].strip()), 0)
        lines[head] = b" ".join(lines[head].split(b"#")[0].split()[:5])
        return b"\n".join(lines) + b"\n" + last
    num = args[0] % len(lines)
    if how == "ldrop":
        del lines[num:num + args[1]]
    elif how == "ldup":
        lines[num:num] = lines[num:num + args[1]]
    elif how == "lmove":
        line = lines.pop(num)
        lines.insert(args[1] % (len(lines) + 1), line)
    elif how == "lswap":
        other = args[1] % len(lines)
        lines[num], lines[other] = lines[other], lines[num]
    elif how == "ljoin":
        lines[num:num + 2] = [args[1].encode().join(lines[num:num + 2])]
    elif how == "lsplit":
        pos = int(args[1]*len(lines[num]))
        lines[num:num + 1] = [lines[num][:pos], lines[num][pos:]]
    elif how == "lins":
        lines.insert(num, args[1].encode())
    elif how == "lcut":
        lines[num] = lines[num][:int(args[1]*len(lines[num]))]
    elif how == "lstale":
        old = content(args[1]).split(b"\n")
        lines[num] = old[num % len(old)]
    elif how.startswith("t"):
        words = lines[num].split()
        if words:
            idx = args[1] % len(words)
            if how == "tset":
                words[idx] = args[2].encode()
            elif how == "tdrop":
                del words[idx]
            elif how == "tdup":
                words.insert(idx, words[idx])
            elif how == "tins":
                words.insert(idx, args[2].encode())
            elif how == "tadd":
                words.append(args[2].encode())
            elif how == "tswap":
                other = args[2] % len(words)
                words[idx], words[other] = words[other], words[idx]
            elif how == "tneg":
                words[idx] = words[idx][1:] if words[idx][:1] == b"-" else b"-" + words[idx]
            elif how == "tapp":
                words[idx] += args[2].encode()
            elif how == "tinc":
                try:
                    words[idx] = b"%d" % (int(words[idx]) + args[2])
                except ValueError:
                    pass
            else:
                raise KeyError(how)
        lines[num] = b" ".join(words)
    elif how:
        raise KeyError(how)
    return b"".join(line + b"\n" for line in lines) + last


def nm_pairs(nmin, nmax):
    """ Index pairs in the usual order. """
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0))
        for m in range(1, n + 1):
            out.extend([(n, m), (n, -m)])
    return out


def amplitude(n):
    return 30000.0 / (max(1, n) ** 2.2)


# NOTE: columns of fixed width, contents of the same shape have the same size

def _shc(seed, nmin=1, nmax=3, ntimes=3, order=2, t0=2000.0, dt=2.5, comments=2):
    rng = rng_of(seed, 1)
    times = t0 + dt * np.arange(ntimes)
    lines = [f"# synthetic model {seed} line {i}" for i in range(comments)]
    step = max(1, order - 1)
    lines.append(f" {nmin} {nmax} {ntimes} {order} {step}" + (f" {times[0]:.4f} {times[-1]:.4f}" if seed % 2 else ""))
    lines.append("           " + " ".join(f"{t:.4f}" for t in times))
    for n, m in nm_pairs(nmin, nmax):
        base = rng.normal() * amplitude(n)
        vals = base + rng.normal(size=ntimes).cumsum() * amplitude(n) * 0.02
        lines.append(f"{n:4d}{m:5d} " + " ".join(f"{v:14.6f}" for v in vals))
    return "\n".join(lines) + "\n"


def _wmm(seed, nmax=3, epoch=2015.0):
    rng = rng_of(seed, 2)
    lines = [f"    {epoch:.1f}            SYN-{seed}              12/15/2014"]
    for n in range(1, nmax + 1):
        for m in range(n + 1):
            g, h, dg, dh = rng.normal(size=4) * amplitude(n) * np.array([1, 1, 0.002, 0.002])
            if m == 0:
                h = dh = 0.0
            lines.append(f"{n:3d}{m:3d} {g:9.1f} {h:9.1f} {dg:10.1f} {dh:9.1f}")
    lines += ["9" * 48, "9" * 48]
    return "\n".join(lines) + "\n"


def _igrf(seed, nmax=3, ntimes=4, t0=1995.0):
    rng = rng_of(seed, 3)
    times = [t0 + 5*i for i in range(ntimes)]
    lines = [f"# synthetic IGRF {seed}", "c/s deg ord " + " ".join("IGRF" for _ in times) + " SV"]
    lines.append("g/h n m " + " ".join(f"{t:.1f}" for t in times) + f" {times[-1]:.0f}-{(times[-1] + 5) % 100:02.0f}")
    for n, m in nm_pairs(1, nmax):
        base = rng.normal() * amplitude(n)
        vals = base + rng.normal(size=ntimes).cumsum() * amplitude(n) * 0.02
        svar = rng.normal() * amplitude(n) * 0.002
        lines.append(f"{'g' if m >= 0 else 'h'} {n} {abs(m)} " + " ".join(f"{v:9.2f}" for v in vals) + f" {svar:8.2f}")
    return "\n".join(lines) + "\n"


def _emm_rows(rng, nmax, scale):
    rows = []
    for n in range(1, nmax + 1):
        for m in range(n + 1):
            g, h = rng.normal(size=2) * amplitude(n) * scale
            rows.append(f"{n:5d}{m:5d} {g:14.4f} {0.0 if m == 0 else h:14.4f}")
    return rows


def _emm_static(seed, nmax=4, epoch=2017.0):
    rng = rng_of(seed, 4)
    head = [f" Synthetic static {seed}", f" Epoch: {epoch:.1f}", " -----------------------"]
    return "\n".join(head + _emm_rows(rng, nmax, 1.0)) + "\n"


def _emm_secvar(seed, nmax=3, epoch=2017.0, variant=0):
    rng = rng_of(seed, 5)
    head = [f" Synthetic secvar {seed}", f" Epoch: {epoch:.1f}", " -----------------------"]
    rows = _emm_rows(rng, nmax, 0.002)
    if variant == 1:        # other order of the coefficients
        rows[1], rows[2] = rows[2], rows[1]
    elif variant == 2:      # other set of coefficients
        rows = rows[2:]
    elif variant == 3:
        rows = rows[:3] + rows[4:]
    return "\n".join(head + rows) + "\n"


MMA_STEPS = 6
MMA_BASES = 7
MMA_BIG = 6             # products of more data, read in many steps


def mma_arrays(base, start, stop, extra=0):
    """ Synthetic MMA product: variable -> (times in ms since 2000, indices, coefficients).
    Covers steps start <= i < stop (and the first time of the following step).
    """
    out = {}
    for idx, name in enumerate(["gh_1", "gh_2", "qs_1", "qs_2", "gh_geo", "gh_sm", "qs_geo", "qs_sm"]):
        rng = rng_of(1000*base + idx, 8)
        nm = np.array(nm_pairs(1, 1 if name.endswith("_1") else 2))
        if name.endswith("_1"):
            nm = nm[:1]
        elif name[0] == "q":
            nm = nm[:5]
        if base == 2:                                   # other order
            nm = nm[::-1]
        elif base == 3 and not name.endswith("_1"):     # other degrees
            nm = np.array(nm_pairs(1, 3))
        elif base == 4:                                 # other set of the same degrees
            nm = np.array(nm_pairs(1, 1)) if name.endswith("_1") else np.delete(nm, -2, axis=0)
        per = 1 if name.endswith("_2") else 2           # times per step
        if base == MMA_BIG:
            per *= 200
        time = np.arange(MMA_STEPS*per + 1)*(21600000.0/per)
        if name.endswith("_2"):
            time = time + 3600000.0
            if base == 5:                               # one of the sets is delayed
                time = time + 30000000.0
        coef = 20.0*rng.normal(size=(1, len(nm))) + rng.normal(size=(len(time), len(nm))).cumsum(axis=0)
        part = slice(start*per, stop*per + extra)
        out[name] = (time[part] + 6180*86400000.0, nm, coef[part])
    return out


def _mio(seed, nmax=2, mmax=1, pmin=0, pmax=1, smin=-1, smax=1):
    rng = rng_of(seed, 6)
    height, wolf = (110.0, 95.5, 140.0)[seed//2 % 3], (0.014850, 0.02, 0.0095)[seed % 3]
    lines = [f"# synthetic MIO {seed}", "# second line",
             f" {nmax} {mmax} {pmin} {pmax} {smin} {smax}  {9.5 + seed % 5:.3f} {287.0 + seed % 7:.3f} {height:.1f} {wolf:.6f}"]
    pairs = []
    for n in range(1, nmax + 1):
        pairs.append((n, 0))
        for m in range(1, min(n, mmax) + 1):
            pairs.extend([(n, m), (n, -m)])
    ncoef = (pmax - pmin + 1) * (smax - smin + 1) * 2
    for _ in ("external", "internal"):
        for n, m in pairs:
            vals = rng.normal(size=ncoef) * 10.0 / n
            lines.append(f"{n} {m} " + " ".join(f"{v:11.6f}" for v in vals))
    return "\n".join(lines) + "\n"


def _apex(seed, nepoch=2, nmax=3, mmax=2, lmax=1, t0=1995.0):
    rng = rng_of(seed, 7)
    ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
    nterm = (lmax + 1)*ntermsh
    vals = rng.normal(size=(6, nepoch, nterm))
    vals[:, 1:, :] = vals[:, :1, :] + 0.05*vals[:, 1:, :]
    epochs = [t0 + 5*i for i in range(nepoch)]
    return (f" {nepoch} {nmax} {mmax} {lmax} {nterm}\n "
            + " ".join(f"{e:.1f}" for e in epochs) + " "
            + " ".join(f"{v:+.10f}" for v in vals.ravel()) + "\n")
