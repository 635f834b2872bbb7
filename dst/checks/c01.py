"""C01: results do not depend on the history of the process.

Every operation of a random history is compared with the outcome of the same
operation executed alone in a fresh process.
"""
import os
import time
from sim import gen as G, ops
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1800}, "thorough": {"runs": 40000, "wall": 3000}}
RULE = ("A case is a history of 4-30 generated calls on re-used model objects and re-used file slots (contents replaced by "
        "rename or in place), with failing calls and environment changes in between; non-trivial if at least 3 calls "
        "succeeded and something was re-used (a model object, a file slot with another content, or the quasi-dipole tables).")
STATES = "distinct pairs of (kind and outcome of the previous call, kind and outcome of the call, re-use of model or file)"
ENV = {"PYTHONHASHSEED": "0"}       # the ones of the references differ
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["a file replaced in place differs from the earlier one in its time stamp or size"]


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.02 if tier == "quick" else 0.05)
    n = rng.randint(4, 16) if tier == "quick" else rng.randint(4, 40)
    profile = rng.random()
    vary = rng.choice([0.15, 0.15, 0.6])
    items = []
    if profile > 0.91:      # models made, used once, and discarded
        kinds = g.pick(("coef",), ("coef", "ccomb", "ccomp"), ("shc", "igrf", "emm", "wmm"), ("mioc", "mioi", "mioe"), ("dip", "coef", "mioc"))
        limits = {g.pick("max_degree", "max_degree", "min_degree"): rng.randint(1, 3)}
        shape = g.pick([], [2])
        for _ in range(2*n):
            oper = g.evalop(g._recipe(g.pick(*kinds), 0), shape=shape, opts=False)
            oper["opt"] = {**oper.get("opt", {}), **limits}
            items.append({"o": oper, "env": ["forget"]} if rng.random() < 0.85 else {"o": oper})
        n = 0
    for _ in range(n):
        if profile < 0.2 and rng.random() < 0.7:
            oper = g.pwop("qd") if rng.random() < 0.85 else g.badop()
        elif items and rng.random() < vary:
            oper = rng.choice(items[-3:])["o"]
            if rng.random() < 0.75:
                oper = g.variant(oper)
        else:
            oper = g.op()
        if "m" in oper and rng.random() < 0.07:
            oper = {"op": "info", "m": oper["m"]}
        item = {"o": oper}
        if rng.random() < 0.12:
            item["env"] = rng.choice([
                ["cwd", rng.choice(["sub", "."])], ["tz", rng.choice(["UTC", "EST5EDT", "NZST-12NZDT", "garbage"])],
                ["clock", rng.choice([-10**9, -86400*365*40, 86400*365*20, 10**9])], ["fill", rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))],
                ["gc"], ["lc"], ["forget"], ["forget"], ["churn", rng.randint(1, 1 << 30)], ["stack", rng.randrange(len(common.FILLS))]])
        items.append(item)
    return {"ops": items, "partner": rng.choice([None, "a", "a", "b"]), "put": rng.choice(["rename", "rename", "inplace"]),
            "fill": [rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))] if rng.random() < 0.7 else None}


def oracle_ops(sc):
    return [item["o"] for item in sc["ops"]]


def run(sc, sim):
    env = sim.env
    env.put_mode = sc["put"]
    fills = common.FILLS
    if sc["fill"]:
        sim.osim.lib.sim_guard(1)
        sim.osim.fill(1, fills[sc["fill"][0]], fills[sc["fill"][1]])
        sim.count("fault:memory-fill")
    if sc.get("partner"):
        sim.count("fault:other-environment")
    prev = None
    good = reuse = 0
    used_models, slots = set(), {}
    home = os.getcwd()
    for idx, item in enumerate(sc["ops"]):
        sim.at(idx)
        change = item.get("env")
        if change:
            sim.count("fault:env-" + change[0])
            if change[0] == "cwd":
                path = os.path.join(sim.work, change[1])
                os.makedirs(path, exist_ok=True)
                os.chdir(path)
            elif change[0] == "tz":
                os.environ["TZ"] = change[1]
                time.tzset()
            elif change[0] == "clock":
                sim.osim.lib.sim_clock(change[1])
                sim.count("clock_s", abs(change[1]))
            elif change[0] == "fill":
                sim.osim.lib.sim_guard(1)
                sim.osim.fill(1, fills[change[1]], fills[change[2]])
            elif change[0] == "gc":
                import gc
                gc.collect()
            elif change[0] == "forget":     # the memory and the object addresses are re-used
                env.models.clear()
            elif change[0] == "lc":
                import decimal
                decimal.getcontext().prec = 5
            elif change[0] == "churn":
                import numpy as np
                junk = [np.full(n % 97 + 1, np.nan) for n in range(200)]
                del junk
            elif change[0] == "stack":
                sim.osim.lib.sim_dirty_stack(fills[change[1]])
        oper = item["o"]
        key = str(oper.get("m") or oper.get("c") or "")
        used = key in used_models and bool(key)
        if key:
            used_models.add(key)
        ref = (oper.get("p") or {}).get("file")
        if ref:
            used = used or (ref[0] in slots)
            if slots.get(ref[0], ref[1]) != ref[1]:
                sim.count("fault:file-replaced")
                sim.count("probe:qd-file-replaced")
            slots[ref[0]] = ref[1]
        got = ops.outcome(ops.run, env, oper)
        sim.count("calls")
        sim.count("steps")
        if got[0] == "ok":
            good += 1
            reuse += bool(used)
        else:
            sim.count("fault:failed-call")
        sim.check(oper, got, at=idx)
        kind = [oper["op"], oper.get("f") or (oper.get("m") or {}).get("m"), got[0]]
        sim.sig(str([prev, kind, used]))
        prev = kind
        if sim.viol:
            break
    bad = sim.osim.get("sim_corruptions")
    if bad and not sim.viol:
        sim.fail("corruption", f"{bad} memory blocks overrun, last {[sim.osim.get('sim_bad_' + k) for k in ('size', 'offset', 'caller')]}", len(sc["ops"]) - 1)
    os.chdir(home)
    if good >= 3 and reuse:
        sim.count("nontrivial")
