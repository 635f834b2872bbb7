"""C07: no input sample ends, hangs or poisons an evaluation.

Faulty samples (not-a-number, infinities, huge, tiny, out of range) are injected
into array evaluations of the real code; all other samples must come out as in
the clean evaluation made in a fresh process, and so must a repeated clean
evaluation. Invalid degrees, indices and time nodes must end in a result or an
exception, in bounded time, with the memory intact and the later evaluations
unaffected. The faulty call is repeated with different contents of the unused
memory, which must not be visible in the result.
"""
import copy
import json
import numpy as np
from sim import gen as G, batch as B, ops, procstate
from sim.simrun import diff
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 6000}, "thorough": {"runs": 150000, "wall": 3000}}
RULE = ("A case is an array evaluation with 1-4 faulty samples injected into one argument, or an evaluation with invalid "
        "integer parameters, indices or time nodes; non-trivial if the clean evaluation succeeds and other samples remain, "
        "or if the invalid parameters were rejected or evaluated.")
STATES = "distinct tuples (function or model kind, coordinate systems, poisoned argument and component, injected value, batch rank)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = [common.ASSUME[0], "bounded time means 25 s of processor time for evaluations which need less than a second",
               "the address space is limited to 6 GB, larger work arrays cannot be allocated"]
CPU_LIMIT = 25

VALUES = ["nan", "nan", "nan", "inf", "-inf", 0.0, -0.0, 1e308, -1e308, 1e-308, -5e-324, 1e18, -1e18, 1e10, -1e10, 90.0, -90.0,
          180.0, -180.0, 360.0, 1e6, -1e6, 6371.2, 90.0000001, 1e4, -1e4, 40000.0, 4503599627370497.5, 2147483648.0, -2147483649.0]
INTS = [-1, -2, -100, -2**31, 2**31 - 1, 65535, 65536, 46340, 46341, 10**6, 0, 2**31, 2**63, 2**32, -2**32, 2**32 + 3, 3 - 2**32]


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.01, maxn=40, apex_big=0.1)
    x = g.r()
    fill = [rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))]
    if x < 0.22:
        return {"kind": "param", "o": bad_param(g, rng), "o2": g.pwop(heavy=0.8) if g.r() < 0.5 else g.evalop(), "fill": fill}
    shape = g.shape(0.0)
    while not shape and g.r() < 0.8:
        shape = g.shape(0.0)
    if g.r() < 0.55:
        oper = g.pwop(shape=shape, heavy=0.45)
    else:
        oper = g.evalop(shape=shape)
    # lists and tuples are not accepted by all functions
    for spec in (oper["a"] if oper["op"] == "pw" else {k: oper[k] for k in ("t", "x")}).values():
        if isinstance(spec, dict):
            spec.pop("py", None)
            if spec.get("l") in ("list", "tuple"):
                spec.pop("l")
    if oper["op"] == "pw":
        names = sorted(oper["a"])
    else:
        names = ["t", "x"] + ["opt:" + k for k, v in sorted(oper.get("opt", {}).items()) if isinstance(v, dict)]
        if g.r() < 0.5:
            names = ["t", "x"]
    poison = []
    arg = rng.choice(names)
    for _ in range(g.pick(1, 1, 1, 2, 4)):
        poison.append([arg if g.r() < 0.7 else rng.choice(names), rng.randrange(100000), rng.randrange(3), rng.choice(VALUES)])
    return {"kind": "sample", "o": oper, "poison": poison, "first": rng.random() < 0.5, "fill": fill, "_lists": ["poison"]}


def bad_param(g, rng):
    kind = g.pick("degree", "degree", "sets", "sets", "nm", "nodes", "model", "model", "cm", "fourier", "fourier", "mode", "pole", "shape", "shape", "ndim")
    if kind == "ndim":      # more dimensions than supported
        shape = [1]*g.pick(5, 14, 15, 16, 17, 31, 32, 62, 63, 64)
        if g.r() < 0.5:
            shape[rng.randrange(len(shape))] = 2
        return g.pwop(shape=shape, heavy=0.8) if g.r() < 0.8 else g.evalop(shape=shape)
    shape = g.pick([], [2], [3, 2])
    if kind == "shape":
        if g.r() < 0.3:
            oper = g.badop()
            while oper["op"] not in ("pw", "eval"):
                oper = g.badop()
        else:
            oper = g.pwop(shape=shape, heavy=0.8) if g.r() < 0.7 else g.evalop(shape=g.pick(shape, [4], [3, 4]))
            args = oper["a"] if oper["op"] == "pw" else oper
            if "opt" in oper and g.r() < 0.35:      # values of model options
                args = oper["opt"]
            names = [name for name in args if isinstance(args[name], dict) and "k" in args[name]]
            if not names:
                args = oper["a"] if oper["op"] == "pw" else oper
                names = [name for name in args if isinstance(args[name], dict) and "k" in args[name]]
            arg = rng.choice(names)
            lead = args[arg].get("sh", [])
            args[arg] = {"k": "norm", "s": g.seed(), "sh": g.pick(lead, lead, lead[:-1], [*lead, 2]), "tail": g.pick([2], [2], [1], [4], [0], [], [3, 1])}
        if oper["op"] == "pw" and "scale_gradient" in oper["p"] and g.r() < 0.5:
            oper["p"]["scale_gradient"] = {"k": "raw", "v": g.pick([1.0, 2.0], [], [[1.0, 2.0, 3.0]], [1.0, 2.0, 3.0, 4.0], "nan", None)}
        return oper
    if kind == "degree":
        name = g.pick("legendre", "loncossin", "relradpow", "sheval", "spharpot", "sphargrd", "shevaltemp", "sheval2dfs")
        oper = g.pwop(name, shape)
        oper["p"]["degree"] = rng.choice(INTS)
        return oper
    if kind == "mode":
        oper = g.pwop(g.pick("sheval", "shevaltemp", "sheval2dfs", "convert", "bisect", "interp"), shape)
        oper["p"][g.pick("mode", "ict", "oct", "kind", "side")] = rng.choice([0, 4, 255, -1, 2**31 - 1, 3, 2**40])
        for key in ("ict", "oct"):
            if key in oper["p"] and oper["p"][key] not in (0, 1, 2) and "x" in oper["a"]:
                value = oper["p"].pop(key)
                oper["p"][key] = value
        if oper["p"].get("ict") not in (None, 0, 1, 2):
            oper["p"]["oct"], oper["p"]["ict"] = oper["p"]["ict"], 1
        return oper
    if kind == "pole":
        oper = g.pwop(g.pick("mut", "to_dipole", "vrot_from_dipole", "sheval_dipole"), shape)
        oper["p"]["pole"] = [rng.choice([90.0, -90.0, 0.0, 1e300, 90.0]), rng.choice([0.0, 1e300, -1e18, 180.0])]
        return oper
    if kind in ("sets", "nm"):
        oper = g.pwop("shevaltemp", shape)
        spec = rng.choice(oper["p"]["sets"])
        spoil(g, rng, spec, kind)
        return oper
    if kind == "fourier":
        oper = g.pwop(g.pick("sheval2dfs", "fourier2d"), shape)
        spec = oper["p"]["set"]
        if g.r() < 0.5:
            dim = g.pick("1", "2")
            spec["m" + dim] = rng.choice(INTS) if g.r() < 0.7 else g.pick(-2**31, 2**31 - 1)
            if g.r() < 0.5:
                spec["n" + dim] = 1
        elif g.r() < 0.5:
            spec["nmx"] = [[rng.randrange(10), g.pick(0, 1), rng.choice([v for v in INTS if abs(v) < 2**31])]]
        else:
            spec[g.pick("n1", "n2")] = 0
        return oper
    if kind == "nodes":
        if g.r() < 0.5:
            oper = g.pwop("bisect", shape)
            oper["p"]["nodes"] = rng.choice([[], ["nan"], ["nan", "nan", 1.0], [5.0, 1.0, 3.0, -2.0], ["inf", "inf"], ["-inf", 0.0, "nan", 10.0],
                                             [0.0]*7])
            return oper
        oper = g.pwop("interp", shape[:1])
        spoil(g, rng, oper["p"]["set"], "sets")
        return oper
    if kind == "model":
        oper = g.evalop(shape=shape)
        oper.setdefault("opt", {})[g.pick("max_degree", "min_degree")] = rng.choice(INTS)
        return oper
    oper = g.evalop(rec=g._recipe(g.pick("coef", "ccomp", "ccomb", "dip"), 0), shape=shape)
    spec = oper["m"]["c"]
    if "items" in spec:
        spec = rng.choice(spec["items"])
    spoil(g, rng, spec, g.pick("sets", "nm"))
    return oper


def spoil(g, rng, spec, kind):
    if kind == "nm":
        spec["nmx"] = [[rng.randrange(30), g.pick(0, 1), rng.choice([-1, -3, 7, 1000, -1000, 46340, 65535, 65536, 2**31 - 1, -2**31])]
                       for _ in range(g.pick(1, 1, 2))]
        return
    times = spec.get("times") or [0.0]
    what = g.pick("none", "one", "nan", "same", "rev", "inf", "gx", "order", "more")
    if what == "none":
        spec["tx"] = []
    elif what == "one":
        spec["tx"] = times[:1]
        spec["times"] = times[:1]
        spec.setdefault("order", 2)
    elif what == "nan":
        spec["tx"] = [*times[:-1], "nan"]
    elif what == "same":
        spec["tx"] = [times[0]]*len(times)
    elif what == "rev":
        spec["tx"] = times[::-1]
    elif what == "inf":
        spec["tx"] = ["-inf", *times[1:-1], "inf"][:len(times)]
    elif what == "gx":
        spec["gx"] = [[rng.randrange(30), rng.randrange(5), rng.choice(["nan", "inf", 1e308])]]
    elif what == "more":
        spec["tx"] = [*times, times[-1] + 1.0]
    else:
        spec["order"] = rng.choice([0, -1, 1, 3, 7, 2**31 - 1, 100])


def oracle_ops(sc):
    if sc["kind"] == "param":
        return [sc["o2"]]
    return [sc["o"]]


def poisoned(oper, poison):
    oper = copy.deepcopy(oper)
    for arg, idx, comp, value in poison:
        if oper["op"] == "pw":
            spec = oper["a"][arg]
        elif arg.startswith("opt:"):
            spec = oper["opt"][arg[4:]]
        else:
            spec = oper[arg]
        if isinstance(spec, dict):
            tailed = "tail" in spec or spec["k"] in ("c0", "c1", "c2", "vec")
            spec.setdefault("p", []).append([idx, comp if tailed else None, value])
    return oper


def run(sc, sim):
    np.seterr(**procstate.error_state(sum(sc["fill"])))
    state = procstate.snapshot()
    execute(sc, sim)
    changed = procstate.changes(state)
    if changed:
        sim.fail("process", f"{changed} after {sc['o']}", 1)


def execute(sc, sim):
    oper = sc["o"]
    sim.osim.lib.sim_guard(1)
    sim.osim.fill(1, common.FILLS[sc["fill"][0]], common.FILLS[sc["fill"][1]])
    if sc["kind"] == "param":
        name = oper.get("f") or oper["m"]["m"]
        sim.at(1)
        got = ops.outcome(ops.run, sim.env, oper)
        sim.count("fault:parameter")
        sim.count("probe:rejected" if got[0] == "err" else "probe:evaluated")
        sim.count("nontrivial")
        sim.sig(str([name, got[0], got[1] if got[0] == "err" else 0, sorted((oper.get("p") or {}))]))
        sim.at(2)
        sim.check(sc["o2"], ops.outcome(ops.run, sim.env, sc["o2"]), kind="after", at=2)
        repeated(sim, name, oper, got, sc)
        done(sim, name)
        return
    name = oper.get("f") or oper["m"]["m"]
    want = sim.expected(oper)
    if sc["first"]:
        sim.at(0)
        sim.check(oper, ops.outcome(ops.run, sim.env, oper), kind="clean", at=0)
    if want[0] == "err":
        sim.count("probe:clean-fails")
    sim.at(1)
    bad = poisoned(oper, sc["poison"])
    got = ops.outcome(ops.run, sim.env, bad)
    sim.count("fault:samples", len(sc["poison"]))
    if want[0] == "ok":
        bat = B.Batch(sim.env, oper)
        hit = np.zeros(bat.shape, dtype=bool)
        for arg, idx, comp, value in sc["poison"]:
            if arg not in bat.args:     # common to all samples
                hit[...] = True
                continue
            lead = bat.batch(arg)
            size = int(np.prod(lead, dtype=int))
            mask = np.zeros(size, dtype=bool)
            if size:
                mask[idx % size] = True
            mask = mask.reshape(lead + (1,)*(len(bat.shape) - len(lead)))
            hit |= np.broadcast_to(mask, bat.shape)
            sim.sig(str([name, oper.get("ict"), oper.get("oct"), (oper.get("p") or {}).get("ict"), (oper.get("p") or {}).get("oct"),
                         arg, comp, str(value), len(bat.shape)]))
        rest = ~hit
        if rest.any():
            sim.count("nontrivial")
            if got[0] == "err":
                sim.fail("raises", f"{name} fails ({got[1]}) because of samples {sc['poison']} while {int(rest.sum())} others are fine", 1)
            else:
                outs1 = got[1] if isinstance(got[1], list) else [got[1]]
                outs2 = want[1] if isinstance(want[1], list) else [want[1]]
                angles = ops.op_angles(oper)
                lead = bat.shape
                for num, (out1, out2) in enumerate(zip(outs1, outs2)):
                    out1, out2 = np.asarray(out1), np.asarray(out2)
                    if out1.shape != out2.shape or out1.shape[:len(lead)] != lead:
                        sim.fail("shape", f"{name}: shape {out1.shape} instead of {out2.shape}", 1)
                        break
                    dif = ops.same(out1[rest], out2[rest], 1e-10, 1e-12, angles)
                    if dif:
                        sim.fail("poisoned", f"{name}, output {num}: {dif} because of other samples {sc['poison']}", 1)
                        break
    sim.at(2)
    if not sim.viol:
        sim.check(oper, ops.outcome(ops.run, sim.env, oper), kind="after", at=2)
    if not sim.viol:
        repeated(sim, name, bad, got, sc)
    done(sim, name)


def repeated(sim, name, oper, got, sc):
    """ The result must not depend on the contents of the surrounding memory. """
    sim.at(3)
    fills = [(idx + 1 + idx % 2) % len(common.FILLS) for idx in sc["fill"]]
    sim.osim.fill(1, common.FILLS[fills[0]], common.FILLS[fills[1]])
    again = ops.outcome(ops.run, sim.env, oper)
    dif = diff(again, got, angles=ops.op_angles(oper))
    if dif:
        sim.fail("unstable", f"{name}: {dif} in the same call repeated with different contents of unused memory: {json.dumps(oper)[:900]}", 3)


def done(sim, name):
    sim.count("calls", 3)
    sim.count("steps", 3)
    if sim.osim.get("sim_corruptions"):
        sim.fail("corruption", f"memory block overrun in {name}, last {[sim.osim.get('sim_bad_' + k) for k in ('size', 'offset', 'caller')]}")
