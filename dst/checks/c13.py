"""C13: models assembled from several parts follow the delivery of the parts.

Parts (product files, coefficient files, coefficient sets) are delivered in
seeded order, with duplicates, omissions, replacements and foreign or missing
parts; the assembled model is compared with a reference calculated from the
content of the parts.
"""
import copy
import json
import math
import os
import numpy as np
from sim import contents, gen as G, ops
from . import common

LEVEL = "exploration"
NEEDS_CDF = True
PLAN = {"quick": {"runs": 6000}, "thorough": {"runs": 80000, "wall": 3000}}
RULE = ("A case is a sequence of 2-5 deliveries of 1-6 parts (re-ordered, duplicated, omitted, replaced, nested) from which models are "
        "assembled, evaluated, and evaluated once more at the end; non-trivial if a model of more than one part was assembled or rejected.")
STATES = "distinct tuples (kind of the model, number of parts, disturbance, accepted or rejected, first part used / gap / overlap)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + [
    "coefficients of a single set are interpolated linearly (in days or decimal years) or kept constant, as re-implemented here",
    "the field of a given set of coefficients is the one calculated by the function sheval",
    "products which touch each other in one instant may be accepted or rejected, and EMM static files without own coefficients as well",
]


# ----------------------------------------------------------- reference

class Reject(Exception):
    """ The parts do not form a model. """


class Leaf:
    def __init__(self, nm, gh, times, start=None, end=None, internal=True, kind="lin", conv=None):
        order = np.argsort(times, kind="stable")
        self.nm, self.gh, self.times = np.asarray(nm), np.asarray(gh, dtype="f8")[:, order], np.asarray(times, dtype="f8")[order]
        self.lo = self.times[0] if start is None else start
        self.hi = self.times[-1] if end is None else end
        self.internal, self.kind, self.conv = internal, kind, conv
        self.fuzzy = []

    def leaves(self):
        return [self]

    def valid(self, t):
        return self.lo <= t <= self.hi

    def coef(self, t, size, opt):
        if self.conv:
            t = self.conv(t)
        times, gh = self.times, self.gh
        if self.kind == "const":
            val = gh[:, 0]
        elif self.kind == "step":
            val = gh[:, max(0, int(np.searchsorted(times, t, "right")) - 1)]
        else:
            idx = min(max(0, int(np.searchsorted(times, t, "right")) - 1), len(times) - 2)
            wgt = (t - times[idx])/(times[idx + 1] - times[idx])
            val = gh[:, idx]*(1 - wgt) + gh[:, idx + 1]*wgt
        out = np.zeros((size, 2))
        for (n, m), value in zip(self.nm, val):
            if opt.get("min_degree", -1) <= n <= opt.get("max_degree", 10**6):
                out[n*(n + 1)//2 + abs(m), int(m < 0)] = value
        return out

    def degrees(self):
        return int(self.nm[:, 0].min()), int(self.nm[:, 0].max())


class Parts:
    def __init__(self, items):
        self.items = items
        if any(item.internal != items[0].internal for item in items):
            raise Reject("internal and external parts")
        self.internal = items[0].internal

    def leaves(self):
        return [leaf for item in self.items for leaf in item.leaves()]

    def valid(self, t):
        return self.lo <= t <= self.hi

    def degrees(self):
        degs = [item.degrees() for item in self.items]
        return min(deg[0] for deg in degs), max(deg[1] for deg in degs)


class Comp(Parts):
    def __init__(self, items):
        super().__init__(items)
        end = math.inf
        self.hi = -math.inf
        for item in sorted(items, key=lambda item: (item.lo, item.hi)):
            if item.lo > end:
                raise Reject("gap")
            end = self.hi = max(self.hi, item.hi)
        self.lo = min(item.lo for item in items)

    def coef(self, t, size, opt):
        for item in self.items:
            if item.valid(t):
                return item.coef(t, size, opt)
        raise KeyError(t)


class Comb(Parts):
    def __init__(self, items):
        super().__init__(items)
        self.lo = max(item.lo for item in items)
        self.hi = min(item.hi for item in items)

    def coef(self, t, size, opt):
        return sum(item.coef(t, size, opt) for item in self.items)


def ref_spec(spec):
    """ Reference of a synthetic coefficient set. """
    kind = spec["c"]
    if kind in ("comp", "comb"):
        items = [ref_spec(item) for item in spec["items"]]
        return items[0] if len(items) == 1 else (Comp if kind == "comp" else Comb)(items)
    nm, gh, times = ops.coef_arrays(spec)
    args = {"internal": spec.get("internal", True)}
    start, end = spec.get("validity_start"), spec.get("validity_end")
    if kind == "const":
        return Leaf(nm, gh[:, :1], [0.0], -math.inf if start is None else start, math.inf if end is None else end, kind="const", **args)
    args["kind"] = "step" if spec.get("order") == 1 else "lin"
    if kind == "dy":
        to_mjd, to_dy = _conv()
        start, end = times.min() if start is None else start, times.max() if end is None else end
        return Leaf(nm, gh, times, float(to_mjd(start)), float(to_mjd(end)), conv=to_dy, **args)
    return Leaf(nm, gh, times, start, end, **args)


def _conv():
    from eoxmagmod import time_util
    return time_util.decimal_year_to_mjd2000, time_util.mjd2000_to_decimal_year


def ref_shc(token, kwargs):
    lines = [line.partition("#")[0].split() for line in contents.content(token).decode().splitlines()]
    head, times, *rows = [line for line in lines if line]
    times = np.array([float(v) for v in times])
    nm = [[int(v) for v in row[:2]] for row in rows]
    gh = np.array([[float(v) for v in row[2:]] for row in rows])
    single = len(times) == 1
    start, end = (-math.inf, math.inf) if single else (times.min(), times.max())
    if len(head) > 6:
        start, end = float(head[5]), float(head[6])
    start, end = kwargs.get("validity_start", start), kwargs.get("validity_end", end)
    to_mjd, to_dy = _conv()
    start, end = float(to_mjd(start)), float(to_mjd(end))
    if single:
        return Leaf(nm, gh, [0.0], start, end, kind="const")
    if kwargs.get("interpolate_in_decimal_years"):
        return Leaf(nm, gh, times, start, end, conv=to_dy)
    return Leaf(nm, gh, to_mjd(times), start, end)


def ref_emm(static, secvar):
    def _parse(token):
        head, _, body = contents.content(token).decode().partition("-----------------------\n")
        epoch = float(head.split("Epoch:")[1].split()[0])
        nm, gh = [], []
        for line in body.splitlines():
            n, m, g, h = [float(v) for v in line.split()]
            nm.append((int(n), int(m)))
            gh.append(g)
            if m:
                nm.append((int(n), -int(m)))
                gh.append(h)
        return epoch, nm, np.array(gh)
    epoch, nm, gh = _parse(static)
    epoch2, nm2, gh2 = _parse(secvar)
    size = len(nm2)
    if epoch != epoch2 or nm[:size] != nm2:
        raise Reject("different files")
    to_mjd, to_dy = _conv()
    first = Leaf(nm2, np.stack((gh[:size], gh[:size] + 5*gh2), -1), [epoch, epoch + 5], float(to_mjd(epoch)), float(to_mjd(epoch + 5)), conv=to_dy)
    if len(nm) == size:
        return None
    return Comb([first, Leaf(nm[size:], gh[size:, None], [0.0], -math.inf, math.inf, kind="const")])


MMA_VARS = {"2c_internal": ("gh_1", "gh_2"), "2c_external": ("qs_1", "qs_2"), "2f_geo_internal": ("gh_geo",),
            "2f_geo_external": ("qs_geo",), "2f_sm_internal": ("gh_sm",), "2f_sm_external": ("qs_sm",)}


def ref_mma(which, parts):
    """ Model of the product with the concatenated content, None if both the acceptance and rejection are fine. """
    leaves = []
    touching = False
    for name in MMA_VARS[which]:
        data = [contents.mma_arrays(*part)[name] for part in parts]
        for (time1, nm1, _), (time2, nm2, _) in zip(data[:-1], data[1:]):
            if nm1.shape != nm2.shape or (nm1 != nm2).any():
                raise Reject("structure")
            if time1[-1] > time2[0]:
                raise Reject("order")
            touching |= time1[-1] == time2[0]
        times = np.concatenate([time for time, _, _ in data])/86400000.0
        leaves.append(Leaf(data[0][1], np.concatenate([coef for _, _, coef in data]).T, times, internal=which.endswith("_internal")))
        leaves[-1].fuzzy = [t for t, u in zip(times[:-1], times[1:]) if t == u]
    return (leaves[0] if len(leaves) == 1 else Comb(leaves)), touching


# ---------------------------------------------------------------- generator

def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.0, maxn=10, apex_big=0.0)
    g.nslots = 5
    items = []

    def times():
        return {"s": g.seed(), "sh": g.pick([], [3], [5], [9], [2, 3]), "f": [round(g.r(), 5) for _ in range(9)]}

    def options():
        opt = {}
        if g.r() < 0.3:
            opt["max_degree"] = rng.randint(1, 4)
        if g.r() < 0.2:
            opt["min_degree"] = rng.randint(0, 3)
        return opt

    def mma():
        base = g.pick(0, 0, 0, 1, 2, 3, 4, 5)
        if g.r() < 0.75:
            cuts = sorted(rng.sample(range(7), rng.randint(2, 6)))
            parts = [[base, i, j, 0] for i, j in zip(cuts[:-1], cuts[1:])]
        else:
            parts = []
            for _ in range(rng.randint(1, 5)):
                i = rng.randint(0, 5)
                parts.append([base, i, rng.randint(i + 1, 6), 0])
            parts.sort()
        dist = g.pick("none", "none", "omit", "swap", "dup", "shuffle", "foreign", "extra", "mix", "reverse")
        idx = rng.randrange(len(parts))
        if dist == "omit" and len(parts) > 1:
            del parts[idx]
        elif dist == "swap" and len(parts) > 1:
            idx = rng.randrange(len(parts) - 1)
            parts[idx], parts[idx + 1] = parts[idx + 1], parts[idx]
        elif dist == "dup":
            parts.insert(g.pick(idx, idx + 1, len(parts), 0), list(parts[idx]))
        elif dist == "shuffle":
            rng.shuffle(parts)
        elif dist == "reverse":
            parts.reverse()
        elif dist == "foreign":
            parts[idx][0] = (parts[idx][0] + rng.randint(1, 5)) % 6
        elif dist == "mix":
            for part in parts:
                part[0] = g.pick(0, 1)
        elif dist == "extra":
            for part in parts:
                if part[0] in (0, 5) and part[2] < 6 and g.r() < 0.6:
                    part[3] = 1
        return {"k": "mma", "w": g.pick(*ops.MMA), "parts": parts, "dist": dist}

    def emm():
        k, nmax = rng.randrange(4), rng.randint(2, 3)
        static = f"emms:{k}:{rng.randint(3, 5)}:{g.pick('2015.0', '2017.0', '2020.0')}"
        secvar = f"emmv:{k}:{nmax}:{static.split(':')[3]}"
        dist = g.pick("none", "none", "none", "epoch", "epoch", "variant", "swap", "same", "small")
        if dist == "epoch":
            epoch = float(static.split(':')[3])
            secvar = f"emmv:{k}:{nmax}:{epoch + g.pick(-2.0, 3.0, 5.0, 0.1, 0.5, -0.1, -0.5)}"
        elif dist == "variant":
            secvar += f":{rng.randint(1, 3)}"
        elif dist == "small":
            static = f"emms:{k}:{nmax - 1}:{static.split(':')[3]}"
        files = [static, secvar]
        if dist == "swap":
            files.reverse()
        if dist == "same":
            files = [static, static] if g.r() < 0.5 else [secvar, secvar]
        return {"k": "emm", "files": files, "dist": dist}

    def shc():
        t0, step = g.pick(1995.0, 2000.0), g.pick(2.5, 5.0, 1.0)
        files = []
        for _ in range(rng.randint(1, 5)):
            nt = g.pick(2, 2, 3, 4) if g.r() > 0.1 else 1
            files.append(f"shc:{rng.randrange(8)}:{g.pick(1, 1, 2)}:{rng.randint(2, 5)}:{nt}:{1 if nt == 1 else 2}:{t0}:{step}")
            t0 += step*(nt - 1)
            if g.r() < 0.15:
                t0 += g.pick(-1, 1)*step
        dist = g.pick("none", "none", "omit", "swap", "dup", "shuffle", "reverse")
        idx = rng.randrange(len(files))
        if dist == "omit" and len(files) > 1:
            del files[idx]
        elif dist == "dup":
            files.insert(g.pick(idx, 0, len(files)), files[idx])
        elif dist in ("shuffle", "swap"):
            rng.shuffle(files)
        elif dist == "reverse":
            files.reverse()
        item = {"k": g.pick("shc", "shc", "shcc"), "files": files, "dist": dist}
        if item["k"] == "shcc" and g.r() < 0.6:     # common validity
            item["files"] = [":".join([*name.split(":")[:6], "2000.0", g.pick("2.5", "3.0")]) for name in files]
        if g.r() < 0.3:
            item["kw"] = {"interpolate_in_decimal_years": True}
        elif g.r() < 0.1:
            item["kw"] = {"validity_start": g.pick(1990.0, 2001.0), "validity_end": g.pick(2010.0, 2030.0)}
        if g.r() < 0.2:     # coefficients instead of a file
            item["obj"] = rng.randrange(len(item["files"]))
        return item

    def leaf(grid, internal):
        kind = g.pick("td", "td", "td", "dy", "const")
        spec = {"c": kind, "seed": g.seed(), "nmin": g.pick(1, 1, 2), "nmax": rng.randint(2, 5), "internal": internal}
        if kind == "const":
            if g.r() < 0.6:
                spec["validity_start"], spec["validity_end"] = sorted(rng.sample(grid, 2))
        else:
            i = rng.randrange(len(grid) - 1)
            spec["times"] = grid[i:rng.randint(i + 2, min(len(grid), i + 4))]
            if kind == "dy":
                spec["times"] = [2000 + t/365.25 for t in spec["times"]]
                if g.r() < 0.6:
                    spec["times"] = [round(t*2)/2 for t in spec["times"]]
                    spec["times"] = sorted(set(spec["times"]))
                    if len(spec["times"]) < 2:
                        spec["times"].append(spec["times"][0] + 1.5)
            if g.r() < 0.2:
                spec["order"] = 1
            elif g.r() < 0.15 and kind == "td":
                spec["validity_end"] = spec["times"][-1] + 100.0
            if g.r() < 0.2:
                spec["tperm"] = 1
        if g.r() < 0.2:
            spec["perm"] = 1
        if g.r() < 0.2:
            spec["drop"] = rng.randint(1, 3)
        return spec

    def tree(grid, internal, depth):
        if depth == 0 or depth < 3 and g.r() < 0.4:
            kind = g.pick("comp", "comp", "comb")
            items = [tree(grid, internal, depth + 1) for _ in range(g.pick(1, 2, 2, 3, 4))]
            if kind == "comp" and g.r() < 0.5:      # sequence of sets
                cuts = sorted(rng.sample(range(len(grid)), min(len(grid), len(items) + 1)))
                items = [dict(leaf(grid, internal), c="td", times=grid[i:j + 1]) for i, j in zip(cuts[:-1], cuts[1:])]
                for item in items:
                    for key in ("validity_start", "validity_end", "order"):
                        item.pop(key, None)
                if g.r() < 0.5:
                    rng.shuffle(items)
            spec = {"c": kind, "items": items}
            if g.r() < 0.15:
                items.append(copy.deepcopy(rng.choice(items)))
                if g.r() < 0.6:
                    spec["same"] = 1
            return spec
        return leaf(grid, internal if g.r() < 0.98 else not internal)

    def coef():
        grid = [round(rng.uniform(-1000, 1000) + 500.0*i, 2) for i in range(7)]
        grid.sort()
        item = {"k": "coef", "c": tree(grid, g.pick(True, True, False), 0), "dist": "none"}
        if g.r() < 0.25:
            item["pole"] = [round(rng.uniform(60, 89), 3), round(rng.uniform(-180, 180), 3)]
        return item

    def mio():
        item = {"k": "mio", "a": g._recipe("mioc", 0), "b": None, "dist": "none", "wolf": g.pick(None, 0.0, 0.02),
                "f107": g.pick(None, 95.0, "array", "array", "first")}
        if g.r() < 0.6:
            item["b"] = g._recipe("mioc", 0)
            item["h"] = g.pick(None, 110.0, 300.0, 800.0)
            for key in ("validity_start", "validity_end"):
                item["b"]["c"].pop(key, None)
                if key in item["a"]["c"]:
                    item["b"]["c"][key] = item["a"]["c"][key]
        return item

    for _ in range(rng.randint(2, 4 if tier == "quick" else 6)):
        if items and g.r() < 0.3:       # the same parts delivered again in other way
            item = copy.deepcopy(rng.choice(items))
            key = next((key for key in ("parts", "files") if key in item), None)
            if key:
                rng.shuffle(item[key])
                item["dist"] = "again"
        else:
            item = g.pick(mma, mma, emm, shc, shc, coef, coef, mio)()
        item.update(t=times(), opt=options())
        item.pop("fail", None)
        if item["k"] not in ("coef", "mio") and g.r() < 0.08:
            item["fail"] = [rng.randrange(6), g.pick("missing", "dir", "empty")]
        item["slots"] = g.pick("own", "shared", "shared")
        items.append(item)
    return {"ops": items}


def shrinks(sc):
    for idx, item in enumerate(sc["ops"]):
        for key in ("parts", "files"):
            if len(item.get(key, ())) > 1 and item["k"] != "emm":
                for pos in range(len(item[key])):
                    if item.get("obj", -1) < len(item[key]) - 1:
                        yield {**sc, "ops": [*sc["ops"][:idx], {**item, key: item[key][:pos] + item[key][pos + 1:]}, *sc["ops"][idx + 1:]]}
        if "c" in item and len(item["c"]["items"]) > 1:
            for pos in range(len(item["c"]["items"])):
                yield {**sc, "ops": [*sc["ops"][:idx], {**item, "c": {**item["c"], "items": item["c"]["items"][:pos] + item["c"]["items"][pos + 1:]}}, *sc["ops"][idx + 1:]]}
        if item["opt"]:
            yield {**sc, "ops": [*sc["ops"][:idx], {**item, "opt": {}}, *sc["ops"][idx + 1:]]}


# ---------------------------------------------------------------- execution

def assemble(env, item, num):
    """ The assembled model: (model, coefficients) """
    import eoxmagmod as pkg
    from eoxmagmod.magnetic_model import coefficients as cm, loader_mma, loader_shc
    prefix = "p" if item["slots"] == "shared" else f"o{num}_"

    def _file(idx, token):
        fail = item.get("fail")
        count = len(item.get("parts") or item["files"])
        if fail and fail[0] % count == idx:
            token = fail[1]
        return env.file([f"{prefix}{idx}.dat", token])
    if item["k"] == "mma":
        paths = [_file(idx, "cdf:" + "_".join(map(str, part))) for idx, part in enumerate(item["parts"])]
        model = getattr(pkg, "load_model_swarm_mma_" + item["w"])(*paths)
        return model, getattr(loader_mma, "load_coeff_swarm_mma_" + item["w"])(*paths)
    if item["k"] == "emm":
        model = pkg.load_model_emm(*[_file(idx, token) for idx, token in enumerate(item["files"])])
        return model, model.coefficients
    if item["k"] in ("shc", "shcc"):
        inputs = [_file(idx, token) for idx, token in enumerate(item["files"])]
        if "obj" in item:
            inputs[item["obj"]] = loader_shc.load_coeff_shc(inputs[item["obj"]], **item.get("kw", {}))
        model = (pkg.load_model_shc if item["k"] == "shc" else pkg.load_model_shc_combined)(*inputs, **item.get("kw", {}))
        return model, model.coefficients
    from eoxmagmod.magnetic_model.model import DipoleSphericalHarmomicGeomagneticModel, SphericalHarmomicGeomagneticModel
    coef = ops.build_coef(env, item["c"])
    assert isinstance(coef, cm.SHCoefficients)
    if "pole" in item:
        return DipoleSphericalHarmomicGeomagneticModel(coef, tuple(item["pole"])), coef
    return SphericalHarmomicGeomagneticModel(coef), coef


def run_mio(env, sim, idx, item, text):
    """ Model of one or two (below and above the ionosphere) MIO sets valid in limited time. """
    from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel, MIOPrimaryGeomagneticModel
    from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
    spec = item["a"]["c"]
    lo, hi = spec.get("validity_start", -math.inf), spec.get("validity_end", math.inf)

    def _copy(rec):     # the same coefficients without any limits
        rec = copy.deepcopy(rec)
        for key in ("validity_start", "validity_end"):
            rec["c"].pop(key, None)
        return ops.build_model(env, rec)

    def _build(rec):
        model = ops.build_model(env, rec)
        assert isinstance(model.coefficients, SparseSHCoefficientsMIO)
        args = {} if item["wolf"] is None else {"wolf_ratio": item["wolf"]}
        return DipoleMIOGeomagneticModel(model.coefficients, model.north_pole, **args)
    model = _build(item["a"])
    free = [_copy(item["a"])]
    height = 110.0
    if item["b"]:
        args = {} if item["h"] is None else {"height": item["h"]}
        height = args.get("height", height)
        model = MIOPrimaryGeomagneticModel(model, _build(item["b"]), **args)
        free.append(_copy(item["b"]))
    info = ops.info(model)
    if not np.array_equal(info["validity"], [lo, hi]):
        sim.fail("validity", f"validity {info['validity']} instead of {[lo, hi]} in {text}", idx)
    wolf = 0.014850 if item["wolf"] is None else item["wolf"]
    times = sample_times(Leaf([[1, 0]], [[0.0]], [0.0], lo, hi, kind="const"), item["t"])
    rng = np.random.Generator(np.random.PCG64(item["t"]["s"] + 1))
    locs = np.stack([rng.uniform(-90, 90, times.shape), rng.uniform(-180, 180, times.shape),
                     6371.2 + height*rng.uniform(0, 2, times.shape)], -1)
    f107 = rng.uniform(60, 200, times.shape)
    f107[rng.uniform(size=times.shape) < 0.1] = np.nan
    opt = dict(item["opt"])
    if item["f107"] == "array":
        given = f107
    elif item["f107"] == "first":
        given = f107[..., 0] if times.ndim == 2 else f107
        f107 = np.broadcast_to(f107[..., :1], times.shape) if times.ndim == 2 else f107
    else:
        given = item["f107"]
        f107 = np.full(times.shape, np.nan if given is None else given)
    if given is not None:
        opt["f107"] = given
    got = model.eval(times, locs, **opt)
    if got.shape != locs.shape:
        sim.fail("shape", f"{got.shape} in {text}", idx)
        return
    for pos in np.ndindex(times.shape):
        time, loc = float(times[pos]), locs[pos]
        part = free[-1] if loc[2] > 6371.2 + height else free[0]
        want = np.full(3, np.nan)
        if lo <= time <= hi:
            want = np.asarray(part.eval(time, loc, **item["opt"]))
            if given is not None:
                want = want*(1.0 + wolf*f107[pos])
        one = dict(item["opt"], **({} if given is None else {"f107": float(f107[pos])}))
        for val, how in ((got[pos], "array"), (model.eval(time, loc, **one), "single")):
            dif = ops.same(ops.plain(np.asarray(val)), want, 1e-9, 1e-9)
            if dif:
                sim.fail("value", f"{dif} at {time!r} ({how} time), validity {[lo, hi]} in {text}", idx)
                return


def reference(item):
    """ (reference, either acceptance or rejection is fine) """
    if item["k"] == "mma":
        return ref_mma(item["w"], item["parts"])
    if item["k"] == "emm":
        ref = ref_emm(*item["files"])
        return ref, ref is None
    if item["k"] in ("shc", "shcc"):
        leaves = [ref_shc(token, item.get("kw", {})) for token in item["files"]]
        return (leaves[0] if len(leaves) == 1 else (Comp if item["k"] == "shc" else Comb)(leaves)), False
    return ref_spec(item["c"]), False


def sample_times(ref, spec):
    """ Interesting times, the same for any execution. """
    leaves = ref.leaves()
    marks, fuzzy = set(), set()
    for leaf in leaves:
        marks.update(t for t in (leaf.lo, leaf.hi) if math.isfinite(t))
        if leaf.conv is None and leaf.kind != "const":
            marks.update(leaf.times.tolist())
        fuzzy.update(leaf.fuzzy)
    marks = sorted(marks) or [0.0, 1000.0]
    span = max(marks[-1] - marks[0], 10.0)
    rng = np.random.Generator(np.random.PCG64(spec["s"]))
    size = int(np.prod(spec["sh"])) if spec["sh"] else 1
    out = []
    for idx in range(size):
        x = spec["f"][idx % len(spec["f"])]
        mark = marks[int(rng.integers(0, len(marks)))]
        if x < 0.3:
            t = mark
        elif x < 0.42:
            t = mark + float(rng.choice([-1e-6, 1e-6, -0.01, 0.01]))
        elif x < 0.92:
            t = marks[0] + span*float(rng.uniform(-0.1, 1.1))
        elif x < 0.96:
            t = math.nan
        else:
            t = float(rng.choice([-1, 1]))*1e7
        if any(abs(t - item) < 1e-9 for item in fuzzy):
            t += 0.003
        out.append(t)
    return np.array(out).reshape(spec["sh"])


def near_edge(ref, time):
    """ Step functions and validity limits in converted times cannot be compared right at the edges. """
    for leaf in ref.leaves():
        if leaf.kind == "step" and leaf.conv is not None:
            if np.abs(np.asarray(leaf.conv(time)) - leaf.times).min() < 1e-7:
                return True
    return False


def field(ref, time, loc, opt, size):
    """ Reference field. """
    from eoxmagmod import GEOCENTRIC_SPHERICAL, GRADIENT, sheval
    if not ref.valid(time):
        return np.full(3, np.nan)
    coef = ref.coef(time, size, opt)
    return np.asarray(sheval(
        loc, coef, coord_type_in=GEOCENTRIC_SPHERICAL, coord_type_out=GEOCENTRIC_SPHERICAL, mode=GRADIENT,
        is_internal=ref.internal, scale_gradient=-1.0))


def evaluate(sim, idx, item, model, coef, ref, text):
    import eoxmagmod as pkg
    degs = ref.degrees()
    size = (degs[1] + 1)*(degs[1] + 2)//2
    info = ops.info(model)
    for obj, name in ((info, "model"), (ops.info(coef), "coefficients")):
        if not np.array_equal(obj["validity"], [ref.lo, ref.hi]):
            sim.fail("validity", f"validity of the {name} {obj['validity']} instead of {[ref.lo, ref.hi]} in {text}", idx)
        if (obj["min_degree"], obj["degree"]) != degs:
            sim.fail("degree", f"degrees of the {name} {obj['min_degree']}-{obj['degree']} instead of {degs} in {text}", idx)
    times = sample_times(ref, item["t"])
    rng = np.random.Generator(np.random.PCG64(item["t"]["s"] + 1))
    locs = np.stack([rng.uniform(-90, 90, times.shape), rng.uniform(-180, 180, times.shape), rng.uniform(6371, 7500, times.shape)], -1)
    opt = item["opt"]
    dipole = "pole" in item or item["k"] == "mma" and item["w"].startswith("2c")
    got = model.eval(times, locs, **opt)
    if got.shape != locs.shape:
        sim.fail("shape", f"{got.shape} in {text}", idx)
        return
    for num, pos in enumerate(np.ndindex(times.shape)):
        time, loc = float(times[pos]), locs[pos]
        if near_edge(ref, time):
            continue
        if dipole:
            pole = model.north_pole
            loc_d = pkg.convert_to_dipole(loc, *pole)
            want = field(ref, time, loc_d, opt, size)
            want = pkg.vrot_from_dipole(want, *pole, loc_d[0], loc_d[1], loc[0], loc[1], 1)
        else:
            want = field(ref, time, loc, opt, size)
        top = float(np.abs(ref.leaves()[0].gh).max())
        for val, how in ((got[pos], "array"), *(((model.eval(time, loc, **opt), "single"),) if num < 3 else ())):
            dif = ops.same(ops.plain(np.asarray(val)), want, 1e-9, 1e-9)
            if dif and not (np.isfinite(want).all() and np.isfinite(val).all() and np.abs(val - want).max() < 1e-8*top):
                sim.fail("value", f"{dif} at {time!r} ({how} time), validity {[(leaf.lo, leaf.hi) for leaf in ref.leaves()][:8]} in {text}", idx)
                return
        if ref.valid(time) and num < 4:
            val, deg = coef(time, **opt)
            want = ref.coef(time, size, opt)
            full = np.zeros((size, 2))
            if val.shape != ((int(deg) + 1)*(int(deg) + 2)//2, 2):
                sim.fail("shape", f"coefficients {val.shape} of the degree {deg} in {text}", idx)
                return
            full[:len(val)] = val[:size]
            if not np.allclose(full, want, rtol=1e-9, atol=1e-9*top):
                sim.fail("coefficients", f"{full.tolist()} instead of {want.tolist()} at {time!r} in {text}", idx)
                return
    inside = [float(t) for t in times.ravel() if ref.valid(t) and not near_edge(ref, float(t))]
    if inside and item["k"] != "mma":
        val, deg = coef(np.array(inside), **opt)
        for pos, time in enumerate(inside):
            want = ref.coef(time, size, opt)
            full = np.zeros((size, 2))
            full[:val.shape[1]] = val[pos][:size]
            if not np.allclose(full, want, rtol=1e-9, atol=1e-9*float(np.abs(want).max())):
                sim.fail("coefficients", f"coefficients for multiple times differ at {time!r} of {inside} in {text}", idx)
                return


def run(sc, sim):
    env = sim.env
    kept = []
    multi = 0
    for idx, item in enumerate(sc["ops"]):
        sim.at(idx)
        text = json.dumps({key: value for key, value in item.items() if key not in ("t",)})[:1500]
        sim.count("calls")
        if item["k"] == "mio":
            run_mio(env, sim, idx, item, text)
            sim.count("steps", 2 if item["b"] else 1)
            sim.sig(str(["mio", bool(item["b"]), [key in item["a"]["c"] for key in ("validity_start", "validity_end")],
                         item["f107"], item["t"]["sh"], sorted(item["opt"])]))
            multi += bool(item["b"])
            if sim.viol:
                return
            continue
        try:
            ref, either = reference(item)
            reason = None
        except Reject as exc:
            ref, either, reason = None, False, str(exc)
        nparts = len(item.get("parts") or item.get("files") or item["c"]["items"])
        sim.count("steps", nparts)
        if item["dist"] != "none":
            sim.count("fault:" + item["dist"])
        try:
            model, coef = assemble(env, item, idx)
        except Exception as exc:
            if item.get("fail"):
                sim.count("fault:" + item["fail"][1])
            elif ref is not None and not either:
                sim.fail("rejected", f"{type(exc).__name__}: {exc} in {text}", idx)
            sim.sig(str([item["k"], item.get("w"), nparts, item["dist"], "rejected", reason, type(exc).__name__]))
            multi += nparts > 1
            continue
        if item.get("fail"):
            sim.fail("accepted", f"{item['fail']} in {text}", idx)
            continue
        if ref is None:
            if not either:
                sim.fail("accepted", f"{reason} in {text}", idx)
            continue
        multi += nparts > 1
        sim.sig(str([item["k"], item.get("w"), nparts, item["dist"], "accepted", len(ref.leaves()), ref.internal, sorted(item["opt"])]))
        if any(leaf.kind == "lin" and len(leaf.times) < 2 for leaf in ref.leaves()):
            continue    # cannot be interpolated
        evaluate(sim, idx, item, model, coef, ref, text)
        if sim.viol:
            return
        kept.append((idx, item, model, coef, ref, text))
    for idx, item, model, coef, ref, text in kept[:-1]:
        evaluate(sim, idx, item, model, coef, ref, "(evaluated later) " + text)
    if multi:
        sim.count("nontrivial")
