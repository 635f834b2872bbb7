"""C04: failed memory allocations are reported and harm nothing.

Every call is executed with a chosen allocation of the compiled code failing
(directly, or in the array library or the interpreter on its behalf), several
times in a row, and then again with memory available.
"""
import copy
import gc
import json
import os
import pickle
import sys
from array import array
import numpy as np
from sim import gen as G, ops, osim as osmod
from sim.simrun import diff
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1800}, "thorough": {"runs": 50000, "wall": 3000}}
RULE = ("A case is a history of 2-6 calls; in each up to 8 failure points are tried (n-th eligible allocation, alone or with all the "
        "following ones), each repeated, followed by the same call without the failure; non-trivial if an allocation failed.")
STATES = "distinct tuples (operation, kind of the failed allocation, its number up to 12, alone or all following, outcome)"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUME + [
    "allocations made inside of the Fortran run-time library and of the CDF library are not failed",
    "an allocation of the array library or of the interpreter whose failure they hide (correct result) is not reported",
]
MASKS = {"code": osmod.CLS_TARGET, "numpy": osmod.CLS_NUMPY, "obj": osmod.CLS_OBJ, "npobj": osmod.CLS_NPOBJ,
         "all": osmod.CLS_TARGET | osmod.CLS_NUMPY | osmod.CLS_OBJ}


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.0, maxn=20, apex_big=0.0)
    items = []
    for _ in range(rng.randint(2, 4 if tier == "quick" else 6)):
        x = g.r()
        if items and x < 0.3:
            oper = g.variant(rng.choice(items)["o"])
        elif x < 0.85:
            oper = g.pwop(heavy=0.5)
        elif x < 0.95:
            oper = g.evalop(g.recipe(kinds=("coef", "ccomp", "ccomb", "dip", "mioi", "mioe", "composed", "shc")))
        else:
            oper = g.badop()
        kind = g.pick("code", "code", "numpy", "obj", "npobj", "all", "all")
        if kind in ("numpy", "npobj") and oper["op"] == "pw" and not oper.get("bad") and g.r() < 0.6:
            # arrays too big for the cache of the array library
            oper = g.pwop(oper["f"], shape=[rng.randint(130, 400)])
        item = {"o": oper, "f": [kind, int(g.r() < 0.3), round(g.r(), 4)]}
        if oper.get("f") == "qd" and g.r() < 0.7:
            # the tables are loaded again by each of the calls
            item["pre"] = {**oper, "a": {"a": [1.0], "o": [2.0], "r": [7000.0], "t": [2000.0]},
                           "p": {"base": 0, "file": ["pre.txt", g.pick("apex:0", "apex:7:2:4:3:2")]}}
        items.append(item)
    for item in items:
        # the free lists of the interpreter are empty
        item["gc"] = int(item["f"][0] in ("obj", "all") and rng.random() < 0.5)
    return {"ops": items, "fill": [rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))]}


def oracle_ops(sc):
    return [item["o"] for item in sc["ops"]] + [item["pre"] for item in sc["ops"] if "pre" in item]


def shrinks(sc):
    for idx, item in enumerate(sc["ops"]):
        if "only" not in item:
            for only in range(12):
                yield {**sc, "ops": [*sc["ops"][:idx], {**item, "only": only}, *sc["ops"][idx + 1:]]}
    for idx, item in enumerate(sc["ops"]):
        if item["f"] and len(sc["ops"]) > 1:
            yield {**sc, "ops": [*sc["ops"][:idx], {**item, "f": None}, *sc["ops"][idx + 1:]]}


def refs(args):
    """ Reference counts of the arguments. """
    out = []
    for key in sorted(args):
        value = args[key]
        if isinstance(value, (np.ndarray, list, tuple)):
            out.append((key, sys.getrefcount(value)))
    return out


def run(sc, sim):
    env, osim = sim.env, sim.osim
    osim.lib.sim_track(1)
    osim.lib.sim_guard(1)
    osim.fill(1, common.FILLS[sc["fill"][0]], common.FILLS[sc["fill"][1]])
    osim.py.sim_obj_hook()

    def pre(item):
        if "pre" in item:
            dif = diff(ops.outcome(ops.run, env, item["pre"]), sim.expected(item["pre"]))
            if dif:
                sim.fail("later", f"{dif} after failed calls in {item['pre']}")

    failed_any = 0
    blocks, objs = array("q", [0]*8), array("q", [0]*8)     # kept outside of the counted memory
    for idx, item in enumerate(sc["ops"]):
        sim.at(idx)
        oper = item["o"]
        want = sim.expected(oper)
        text = json.dumps(oper)[:1200]
        args = ops.build_args(env, oper)
        # first execution: model objects are built, tables loaded
        got = ops.outcome(ops.run, env, oper, args)
        dif = diff(got, want, angles=ops.op_angles(oper))
        sim.count("calls")
        if dif:
            sim.fail("later", f"{dif} after failed calls in {text}", idx)
            return
        if not item["f"]:
            continue
        kind, follow, frac = item["f"]
        mask = MASKS[kind]
        pre(item)
        if item.get("gc"):
            gc.collect()
        osim.alloc_plan(mask, [])
        got = ops.outcome(ops.run, env, oper, args)
        total, _ = osim.alloc_off()
        if not total:
            continue
        points = list(range(1, total + 1))
        if len(points) > 8:
            step = len(points)/8
            points = sorted({1 + int(((i + frac)*step) % len(points)) for i in range(8)})
        if "only" in item:
            points = points[item["only"]:item["only"] + 1]
        saved = pickle.dumps(args)
        heavy = "pre" in item and frac > 0.15 or any(max(item2["sh"], default=0) > 60 for item2 in G._walk(oper) if isinstance(item2, dict) and "sh" in item2)
        for point in points:
            plan = [-point] if follow else [point]
            nseen = 0
            got = None
            res0 = refs(args)
            name = f"allocation {point} of {total} ({kind}{', and all following,' if follow else ''}) failed in {text}"
            for rep in range(7):
                pre(item)
                if item.get("gc"):
                    gc.collect()
                osim.alloc_plan(mask, plan)
                got = ops.outcome(ops.run, env, oper, args)
                _, nfail = osim.alloc_off()
                if not nfail:
                    break
                sim.count("fault:alloc-" + kind)
                sim.count("steps")
                failed_any += 1
                if got[0] == "ok":
                    dif = diff(got, want, angles=ops.op_angles(oper))
                    if dif or kind == "code":
                        sim.fail("unreported", f"no exception but {dif or 'a result'}, {name}", idx)
                        return
                elif want[0] == "ok" and got[1] not in ("MemoryError", "_ArrayMemoryError", "OutOfMemoryError"):
                    sim.count("probe:other-exception:" + got[1])
                if sim.viol:
                    return
                if rep == 0:
                    sim.sig(str([oper.get("f") or oper["op"], kind, min(point, 12), follow, got[0]]))
                if osim.get("sim_corruptions") or osim.lib.sim_check_live():
                    sim.fail("corruption", f"memory overrun, {[osim.get('sim_bad_' + k) for k in ('size', 'offset')]}, {name}", idx)
                    return
                got = None
                if rep >= 2:
                    blocks[nseen] = osim.lib.sim_live_blocks()
                    nseen += 1
                    if nseen > 1 and blocks[nseen - 1] <= blocks[nseen - 2]:
                        break
            else:
                grow = [blocks[i + 1] - blocks[i] for i in range(nseen - 1)]
                if all(num > 0 for num in grow):    # confirmed without the cyclic garbage
                    for part in range(2):
                        for _ in range(6):
                            pre(item)
                            osim.alloc_plan(mask, plan)
                            got = ops.outcome(ops.run, env, oper, args)
                            osim.alloc_off()
                        got = None
                        gc.collect()
                        blocks[part] = osim.lib.sim_live_blocks()
                    grow = [blocks[1] - blocks[0]]
                if all(num >= 6 for num in grow):
                    sim.fail("leak", f"memory blocks left by six failed calls: {grow}, {name}", idx)
                    return
            if nfail and not heavy and point == points[min(int(frac*len(points)), len(points) - 1)]:
                # objects: many repetitions, the caches of the interpreter have to be filled first
                for num in (40, 300):
                    gc.collect()
                    gc.disable()
                    for rep in range(20 + num):
                        if rep == 20:
                            objs[0] = sys.getallocatedblocks()
                        pre(item)
                        osim.alloc_plan(mask, plan)
                        got = ops.outcome(ops.run, env, oper, args)
                        osim.alloc_off()
                    got = None
                    if num > 40:
                        gc.collect()
                    objs[1] = sys.getallocatedblocks()
                    gc.enable()
                    if objs[1] - objs[0] < num:
                        break
                else:
                    sim.fail("leak", f"interpreter's memory blocks left by {num} failed calls: {objs[1] - objs[0]}, {name}", idx)
                    return
            if refs(args) != res0:
                sim.fail("references", f"reference counts of the arguments changed from {res0} to {refs(args)}, {name}", idx)
                return
            if pickle.dumps(args) != saved:
                sim.fail("args", f"arguments changed, {name}", idx)
                return
            got = ops.outcome(ops.run, env, oper, args)
            sim.count("calls")
            dif = diff(got, want, angles=ops.op_angles(oper))
            if dif:
                sim.fail("retry", f"{dif} when called again after {name}", idx)
                return
    # other calls
    for idx, item in enumerate(sc["ops"]):
        got = ops.outcome(ops.run, env, item["o"])
        dif = diff(got, sim.expected(item["o"]), angles=ops.op_angles(item["o"]))
        if dif:
            sim.fail("later", f"{dif} after failed calls in {json.dumps(item['o'])[:1200]}", idx)
            return
    if osim.get("sim_corruptions") or osim.lib.sim_check_live():
        sim.fail("corruption", "memory overrun")
    if failed_any:
        sim.count("nontrivial")
