"""C08: the way of splitting, ordering and laying out the work does not matter.

The same samples are delivered to the real code in many seeded ways (single, in
parts, permuted, repeated, reshaped, in various memory layouts and number types,
common values given once or for each sample) with poisoned fresh and recycled
memory, and every delivery must give each sample the same values.
"""
import math
import numpy as np
from sim import gen as G, batch as B, ops
from sim.values import layout, mk
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 8000}, "thorough": {"runs": 120000, "wall": 3000}}
RULE = ("A case is one set of samples of one function or model, evaluated as a whole and in 3-8 other generated ways; "
        "non-trivial if the set has at least two samples, the evaluation succeeded, and at least two ways were compared.")
STATES = "distinct tuples (function or model kind, coordinate systems, batch rank, common arguments, way of delivery)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = [common.ASSUME[0], "results of different deliveries are compared with a relative tolerance of 1e-9 (1e-11 of the largest value)"]

LAYS = ["F", "T", "step", "neg", "neglast", "off", "swap", "ro", "list", "tuple", "bcast"]
# functions documented for arrays of numbers only, not for nested sequences
NO_LISTS = {"mut", "mut_sol", "to_dipole", "vrot_from_dipole", "sheval_dipole", "vrotate", "vnorm", "vincdecnorm"}


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.01, maxn=60, apex_big=0.1)
    while True:
        shape = g.shape(0.01)
        if len(shape) == 0 and g.r() < 0.9:
            continue
        if g.r() < 0.02:
            shape = [rng.randint(300, 3000)]
        break
    x = g.r()
    if x < 0.45:
        oper = g.pwop(shape=shape, heavy=0.4)
    else:
        kinds = ("shc", "shcc", "igrf", "wmm", "emm", "coef", "coef", "ccomp", "ccomp", "ccomb", "ccomb", "dip", "mioi", "mioe", "mioc", "mma", "composed", "composed")
        oper = g.evalop(rec=g.recipe(kinds=kinds), shape=shape)
    ways = []
    for _ in range(rng.randint(3, 8)):
        kind = g.pick("one", "one", "split", "perm", "flat", "fold", "full", "lay", "lay", "lay", "dtype", "rep", "mix", "sub")
        way = [kind, g.seed()]
        if kind == "one":
            way.append(g.pick(0, 0, 1))
        if kind == "dtype":
            way.append(g.pick("i8", "i4", "f4", ">f8", ">i4", "i2", "O", "u4", "u2", "u1"))
        ways.append(way)
    return {"o": oper, "ways": ways, "fill": [rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))], "_lists": ["ways"]}


def relayed(bat, rng):
    """ Change layout of the scales and coefficients. """
    undo = []
    par = bat.oper.get("p") or {}
    for spec in [par.get("scale_gradient"), par.get("scale_potential"), bat.const.get("scale")]:
        if isinstance(spec, dict) and rng.random() < 0.8:
            undo.append((spec, "l", spec.get("l")))
            spec["l"] = rng.choice(LAYS[:-1])
    for spec in [*par.get("sets", ()), *([par["set"]] if isinstance(par.get("set"), dict) else [])]:
        if rng.random() < 0.6:
            undo.append((spec, "lay", spec.get("lay")))
            spec["lay"] = rng.choice(["T", "F", "step", "neg", "neglast", "off", "swap", "ro"])
    return undo


def rounded(arr, kind):
    """ Values representable by the type. """
    if kind in ("f4", ">f8", "O"):
        return arr.astype("f4").astype("f8")
    arr = np.round(arr)
    if kind[0] == "u":
        arr = np.clip(np.abs(arr), 0, {"4": 4e9, "2": 65000, "1": 250}[kind[1]])
    if kind == "i2":
        arr = np.clip(arr, -32000, 32000)
    return arr


def run(sc, sim):
    import random
    oper = sc["o"]
    sim.osim.lib.sim_guard(1)
    sim.osim.fill(1, common.FILLS[sc["fill"][0]], common.FILLS[sc["fill"][1]])
    sim.count("fault:memory-fill")
    bat = B.Batch(sim.env, oper)
    name = oper.get("f") or str(oper["m"]["m"])
    angles = ops.op_angles(oper)
    base = bat.attempt(bat.args)
    sim.count("calls")
    if base[0] == "err":
        # a delivery may fail only if some of the samples cannot be evaluated
        sim.count("fault:failed-call")
        if bat.size:
            ndim = 1 if bat.only1 and bat.shape else 0
            if all(bat.attempt(bat.one(i, ndim))[0] == "ok" for i in range(min(bat.size, 100))):
                sim.fail("raises", f"delivery of {name} as a whole fails: {base[1]}, though each sample can be evaluated")
        return
    try:
        base = bat.flatten(base[1], bat.shape)
    except B.ShapeError as exc:
        sim.fail("shape", f"{name}: {exc}")
        return
    heavy = 12 if name in ("qd",) else 24
    done = 0
    for idx, (kind, seed, *par) in enumerate(sc["ways"]):
        sim.at(idx)
        rng = random.Random(seed)
        nprng = np.random.Generator(np.random.PCG64(seed))
        pairs = []      # (arguments, leading shape, flat indices)
        relay = None
        ref = base
        typed = {}
        if kind == "one":
            chosen = range(bat.size) if bat.size <= heavy else sorted(rng.sample(range(bat.size), heavy))
            ndim = 1 if (par[0] or (bat.only1 and name in ("qd", "mlt"))) and bat.shape else 0
            for i in chosen:
                args = bat.one(i, ndim)
                pairs.append((args, (1,)*ndim, [i]))
        elif kind == "split" and bat.shape and bat.shape[0] > 1:
            cuts = sorted({0, bat.shape[0], *(rng.randrange(bat.shape[0]) for _ in range(rng.randint(1, 3)))})
            stride = bat.size // bat.shape[0]
            for lo, hi in zip(cuts[:-1], cuts[1:]):
                args = {n: a[lo:hi] if bat.batch(n) else a for n, a in bat.args.items()}
                pairs.append((args, (hi - lo, *bat.shape[1:]), list(range(lo*stride, hi*stride))))
        elif kind == "perm" and bat.shape:
            order = nprng.permutation(bat.shape[0])
            stride = bat.size // max(1, bat.shape[0])
            args = {n: a[order] if bat.batch(n) else a for n, a in bat.args.items()}
            pairs.append((args, bat.shape, [o*stride + k for o in order for k in range(stride)]))
        elif kind in ("flat", "rep", "mix", "sub") and bat.shape and bat.size:
            if kind == "flat":
                order = list(range(bat.size))
            elif kind == "rep":
                order = [i for i in range(min(bat.size, 100)) for _ in range(rng.randint(1, 3))]
            elif kind == "sub":
                order = sorted(rng.sample(range(bat.size), rng.randint(1, bat.size)))
            else:
                order = [rng.randrange(bat.size) for _ in range(rng.randint(1, 2*bat.size))]
            pairs.append((bat.pick(order), (len(order),), order))
        elif kind == "fold" and bat.shape and not bat.only1 and bat.size >= 2:
            rows = rng.randint(1, max(1, int(math.sqrt(bat.size))))
            cols = bat.size // rows
            order = list(range(rows*cols))
            shape = (rows, cols) if rng.random() < 0.7 else (rows, 1, cols)
            args = {}
            for n in bat.args:
                if bat.batch(n):
                    arr = bat.flat(n)[:rows*cols]
                    args[n] = arr.reshape(*shape, *arr.shape[1:])
                else:
                    args[n] = bat.args[n]
            pairs.append((args, shape, order))
        elif kind == "full":
            pairs.append(({n: bat.full(n) for n in bat.args}, bat.shape, list(range(bat.size))))
        elif kind == "lay":
            args = dict(bat.args)
            for n in args:
                if rng.random() < 0.6:
                    how = rng.choice(LAYS)
                    if how in ("list", "tuple") and name in NO_LISTS:
                        how = "step"
                    args[n] = layout(args[n], how)
            pairs.append((args, bat.shape, list(range(bat.size))))
            relay = rng
        elif kind == "dtype":
            chosen = rng.choice(sorted(bat.args))
            if name in ("qd", "mlt") and chosen == "t" or name in ("coef", "lp"):
                continue
            if par[0] in ("f4", "O") and (name in NO_LISTS or name.endswith("_simple")):
                continue    # array arithmetic in the given type
            if par[0] in ("f4", "O") and name in ("mioi", "mioe", "mioc", "composed"):
                continue    # solar terms of the ionospheric models, computed in the given type
            names = [chosen]
            if rng.random() < 0.5:      # all together
                names = [n for n in sorted(bat.args) if not (name in ("qd", "mlt") and n == "t")]
            new = {n: rounded(bat.args[n], par[0]) for n in names}
            const = dict(bat.const)
            if "scale" in const and rng.random() < 0.7:
                typed["scale"] = rounded(np.asarray(mk(const["scale"]), dtype="f8"), par[0])
                bat.const = {**const, **typed}
            ref = bat.attempt({**bat.args, **new})
            bat.const = const
            if ref[0] == "err":
                continue
            ref = bat.flatten(ref[1], bat.shape)
            typed = {n: value.astype(par[0]) for n, value in typed.items()}
            pairs.append(({**bat.args, **{n: value.astype(par[0]) for n, value in new.items()}}, bat.shape, list(range(bat.size))))
        if not pairs:
            continue
        done += 1
        sim.sig(str([name, oper.get("ict"), oper.get("oct"), (oper.get("p") or {}).get("ict"), (oper.get("p") or {}).get("oct"),
                     len(bat.shape), sorted(n for n in bat.args if len(bat.batch(n)) < len(bat.shape)), kind]))
        sim.count("fault:delivery-" + kind)
        for args, lead, order in pairs:
            undo = relayed(bat, relay) if relay else ()
            const = bat.const
            bat.const = {**const, **typed}
            got = bat.attempt(args)
            bat.const = const
            for spec, key, value in undo:
                spec[key] = value
            sim.count("steps")
            sim.count("calls")
            if got[0] == "err":
                if par and par[0] == "O":
                    continue
                sim.fail("raises", f"{kind} delivery of {name} fails: {got[1]}", idx)
                return
            try:
                out = bat.flatten(got[1], lead)
            except B.ShapeError as exc:
                sim.fail("shape", f"{kind} delivery of {name}: {exc}", idx)
                return
            tops = [float(np.max(np.abs(r[np.isfinite(r)]), initial=0.0)) if r.dtype.kind == "f" else 0.0 for r in ref]
            dif = None
            if len(out) != len(ref):
                dif = f"{len(out)} instead of {len(ref)} outputs"
            for num, (val, exp) in enumerate(zip(out, ref)):
                exp = exp[order]
                top = float(np.max(np.abs(exp[np.isfinite(exp)]), initial=0.0)) if exp.dtype.kind == "f" else 0.0
                atol = 1e-11*tops[num]/top if top > 0 else 1e-11
                dif = dif or ops.same(val, exp, 1e-9, atol, angles)
                if dif:
                    break
            if dif:
                sim.fail("value", f"{kind} delivery of {name}, output {num}: {dif}", idx)
                return
    if sim.osim.get("sim_corruptions"):
        sim.fail("corruption", f"memory block overrun in {name}")
    if done >= 2 and bat.size >= 2:
        sim.count("nontrivial")
