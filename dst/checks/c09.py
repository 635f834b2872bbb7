"""C09: callers' data and the state of the library are neither shared nor modified.

The caller modifies or keeps the arguments, the results and the data the models
were built from, at seeded points of a history of calls.
"""
import copy
import json
import pickle
import numpy as np
from sim import gen as G, ops, procstate
from sim.simrun import diff
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 3000}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("A case is a history of 3-10 calls on re-used models after which the caller overwrites or keeps the arguments and the results, "
        "and overwrites the data the models were built from; non-trivial if something was overwritten and a later call compared.")
STATES = "distinct tuples (operation, layouts of the arguments, kept or overwritten, same operation or same model used before)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["a conversion to the same coordinate system may return its argument"]
JUNK = [0.0, 777.0, "nan", -1.0, 1e300]


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.005, maxn=12, apex_big=0.02)
    g.lay = lambda p=0.25: "C" if g.r() > p else g.pick("F", "T", "step", "neg", "swap", "ro", "list", "tuple", "off")
    items = []
    for _ in range(rng.randint(3, 7 if tier == "quick" else 12)):
        x = g.r()
        if items and x < 0.4:
            oper = copy.deepcopy(rng.choice(items[-3:])["o"])
            if g.r() < 0.5:
                oper = g.variant(oper)
        elif x < 0.47:
            oper = g.evalop(g._recipe(g.pick("coef", "coef", "dip", "ccomp", "ccomb", "mioc", "mioc"), 0))
        elif x < 0.5:
            oper = g.evalop(g._recipe("composed", 0))
            for item in oper["m"]["items"]:
                if g.r() < 0.5:
                    item[1] = {"k": "vec", "s": g.seed(), "sh": [], "lo": -2.0, "hi": 2.0} if item[0]["m"] != "composed" else 2.0
                    if isinstance(item[1], dict):
                        item[1] = {"k": "raw", "v": [1.0, round(g.r(), 2), -2.0], "np": "f8"}
                if item[0]["m"] in ("mioi", "mioe", "mioc") and g.r() < 0.7:
                    item[2]["f107"] = {"k": "raw", "v": round(60 + 100*g.r(), 1), "np": "f8"}
        elif x < 0.6:
            oper = g.cevalop()
        elif x < 0.65:
            oper = g.traceop()
        else:
            oper = g.op(bad=0.12)
        for spec in G._walk(oper):
            if isinstance(spec, dict) and spec.get("c") in ("td", "dy", "const", "mio") and "i4" not in spec:
                spec["i4"] = int(g.r() < 0.4)   # types and layouts which need no conversion
                if g.r() < 0.3:
                    spec["layF"] = 1
        items.append({"o": oper, "r": g.pick("keep", "smash", "smash"), "a": g.pick("keep", "smash", "smash"),
                      "b": int(g.r() < 0.5), "q": int(g.r() < 0.5), "j": rng.randrange(len(JUNK))})
    return {"ops": items, "fpe": rng.randrange(16)}


def oracle_ops(sc):
    return [item["o"] for item in sc["ops"]]


def smash(obj, junk, seen=None):
    """ Overwrite everything that can be overwritten. """
    count = 0
    if isinstance(obj, np.ndarray):
        if obj.flags.writeable and obj.dtype.kind in "fiub" and obj.size:
            with np.errstate(all="ignore"):
                obj[...] = junk if obj.dtype.kind == "f" else 1
            return 1
        return 0
    if isinstance(obj, dict):
        for value in obj.values():
            count += smash(value, junk)
        obj.clear()
        obj["unknown_option"] = junk
        return count + 1
    if isinstance(obj, (tuple, list)):
        for value in obj:
            count += smash(value, junk)
        if isinstance(obj, list):
            obj[:] = [junk]*len(obj)
            count += 1
    return count


def deep(obj):
    """ Comparable copy of the data. """
    if isinstance(obj, np.ndarray):
        return ("array", obj.dtype.str, obj.shape, obj.strides if obj.size else None, obj.tobytes(), obj.flags.writeable)
    if isinstance(obj, dict):
        return ("dict", [(key, deep(value)) for key, value in obj.items()])
    if isinstance(obj, (tuple, list)):
        return (type(obj).__name__, [deep(value) for value in obj])
    return repr(obj)


def data_of(obj):
    """ Arrays and containers in a result of any kind. """
    return obj if isinstance(obj, (np.ndarray, dict, list, tuple)) else None


def properties(env, oper):
    """ Values of the public properties of the used model or coefficients. """
    try:
        obj = ops.env_coef(env, oper["c"]) if oper["op"] == "ceval" else env.model(oper["m"])
    except Exception:
        return
    for item in (obj, getattr(obj, "coefficients", None)):
        for name in ("validity", "parameters", "degree", "min_degree", "time_scales"):
            value = getattr(item, name, None)
            if isinstance(value, (list, tuple, np.ndarray)):
                yield value


def run(sc, sim):
    env = sim.env
    env.inputs = []
    kept = []
    used = set()
    models = set()
    smashed = compared = 0
    np.seterr(**procstate.error_state(sc.get("fpe", 0)))
    state = procstate.snapshot()
    for idx, item in enumerate(sc["ops"]):
        sim.at(idx)
        oper = item["o"]
        text = json.dumps(oper)[:1200]
        junk = JUNK[item["j"]]
        junk = np.nan if junk == "nan" else junk
        args = ops.build_args(env, oper)
        before = deep(args)
        raw = None
        try:
            raw = ops.run(env, oper, args)
            got = ["ok", ops.plain(raw)]
        except Exception as exc:
            got = ["err", ops.error_kind(exc)]
        sim.count("calls")
        sim.count("steps")
        dif = diff(got, sim.expected(oper), angles=ops.op_angles(oper))
        if dif:
            sim.fail("later", f"{dif} after the caller's data were changed, in {text}", idx)
            return
        compared += smashed > 0
        changed = procstate.changes(state)
        if changed:
            sim.fail("process", f"{changed} after {text}", idx)
            return
        if deep(args) != before:
            sim.fail("args", f"arguments changed by {text}", idx)
            return
        for num, what, obj, copied in kept:
            if deep(obj) != copied:
                sim.fail("kept", f"the {what} of the call {num} {json.dumps(sc['ops'][num]['o'])[:600]} changed by {text}", idx)
                return
        key = [oper["op"], oper.get("f") or (oper.get("m") or {}).get("m")]
        lays = sorted({spec.get("l", "C") for spec in G._walk(oper) if isinstance(spec, dict) and "sh" in spec})
        sim.sig(str([key, lays, item["r"], item["a"], str(oper) in used, str(oper.get("m")) in models]))
        used.add(str(oper))
        models.add(str(oper.get("m")))
        # what the caller does afterwards
        res = data_of(raw)
        alias = res is not None and any(
            value is res or (isinstance(value, np.ndarray) and isinstance(res, np.ndarray) and np.may_share_memory(value, res))
            for value in args.values())
        if alias and not (oper["op"] == "pw" and oper["f"] in ("convert", "vrotate")):
            # only harmful if visible in other calls
            sim.count("probe:result-shares-argument")
        if item["a"] == "keep" and not alias:
            kept.append((idx, "argument", args, before))
        if item["r"] == "keep" and res is not None and not alias:
            kept.append((idx, "result", res, deep(res)))
        if item["r"] == "smash" and res is not None:
            num = smash(res, junk)
            smashed += num
            sim.count("fault:result-overwritten", num)
        if item["a"] == "smash":
            num = smash(args, junk)
            smashed += num
            sim.count("fault:argument-overwritten", num)
        if item.get("q") and oper["op"] in ("eval", "ceval", "trace"):
            num = sum(smash(value, junk) for value in properties(env, oper))
            smashed += num
            sim.count("fault:property-overwritten", num)
        if item["b"] and env.inputs:
            num = sum(smash(data, junk) for data in env.inputs)
            env.inputs.clear()
            smashed += num
            sim.count("fault:model-data-overwritten", num)
    for idx, item in enumerate(sc["ops"]):
        got = ops.outcome(ops.run, env, item["o"])
        dif = diff(got, sim.expected(item["o"]), angles=ops.op_angles(item["o"]))
        if dif:
            sim.fail("later", f"{dif} after the caller's data were changed, in {json.dumps(item['o'])[:1200]}", idx)
            return
    for num, what, obj, copied in kept:
        if deep(obj) != copied:
            sim.fail("kept", f"the {what} of the call {num} {json.dumps(sc['ops'][num]['o'])[:900]} changed by later calls", num)
            return
    if smashed and compared:
        sim.count("nontrivial")
