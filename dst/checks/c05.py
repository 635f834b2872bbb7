"""C05: faults of reading model files are reported and never become data.

Models of all formats are loaded by the real code while the operating system
seam fails, shortens or interrupts chosen open and read calls, or while the
stream handed over by the caller misbehaves.
"""
import copy
import math
import os
from sim import contents, gen as G, ops, osim as osmod
from sim.simrun import diff
from . import common

LEVEL = "exploration"
NEEDS_CDF = True
PLAN = {"quick": {"runs": 4000}, "thorough": {"runs": 80000, "wall": 3000}}
RULE = ("A case is a history of 1-4 loads of a model (from files, or from streams handed over in different ways), each with "
        "its own injected faults, followed by fault-free loads and evaluations; non-trivial if a fault fired or a stream was "
        "handed over in another way than a file.")
STATES = "distinct tuples (model kind, injected faults, tenth of the load where the fault hit, outcome, previous outcome)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME[:1] + [
    "a text file which merely ends earlier is a valid shorter file as far as its format cannot tell; such faults must only be contained",
    "stdio (the CDF library) is served through a cookie stream so that its reads are seen",
]

HARD_OPEN = ["ENOENT", "EACCES", "EMFILE", "ENOMEM", "EIO", "STALE"]
HARD_READ = ["EIO", "EIO", "STALE", "ENOMEM"]
TEXT = ("shc", "shcc", "igrf", "wmm", "emm", "mioi", "mioe")
HOWS = ["stringio", "list", "keep", "gen", "crlf", "crlfkeep", "raw", "raw", "path"]


def recipe(g):
    rec = g._recipe(g.pick(*TEXT, "shc", "shcc", "emm", "mma", "mma"), 0)
    if rec["m"] == "mma" and g.r() < 0.45:      # more product files
        rec["files"] = parts(g)
    for idx, ref in enumerate(rec["files"]):    # separate files
        ref[0] = f"f{idx}." + (ref[0].rpartition(".")[2] or "cdf")
    return rec


def parts(g):
    """ Synthetic product files following each other. """
    base = g.pick(0, 0, 1, 2, 3, 4, 6, 6)
    cuts = sorted(g.rng.sample(range(7), g.rng.randint(2, 5 if base < 6 else 3)))
    return [["", f"cdf:{base}_{i}_{j}_0"] for i, j in zip(cuts[:-1], cuts[1:])]


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.03)
    if g.r() < 0.2:
        return gen_parse(g, rng)
    rec = recipe(g)
    cdf = rec["m"] == "mma"
    rounds = []
    for _ in range(g.pick(1, 1, 2, 3, 4)):
        item = {}
        x = g.r()
        if x < 0.45:
            item["faults"] = [[g.pick(0.0, round(g.r(), 4), round(g.r(), 4), 0.9999), None, 0]]
            item["faults"][0][1] = g.pick(*HARD_OPEN) if item["faults"][0][0] == 0.0 else g.pick(*HARD_READ)
            if g.r() < 0.2:     # absolute operation number
                item["faults"][0][0] = -rng.randint(1, 6)
        elif x < 0.60:
            item["faults"] = [[round(g.r(), 4), "SHORT", g.pick(1, 2, 7, 100, 511)] for _ in range(rng.randint(1, 5))]
            if not cdf and g.r() < 0.5:
                item["faults"] += [[round(g.r(), 4), "EINTR", 0] for _ in range(rng.randint(1, 3))]
        elif x < 0.72:
            item["short"] = g.pick(1, 3, 17, 64, 256, 1000, 4096) if not cdf else g.pick(64, 256, 512, 1000)
            if any("chaos" in ref[1] or ref[1] in ("mf7", "sifm", "emmsv") for ref in rec["files"]) and item["short"] < 64:
                item["short"] = 997
        elif x < 0.80:
            item["content"] = [rng.randrange(len(rec["files"])), g.pick("missing", "dir", "missing", "noaccess")]
            if cdf and g.r() < 0.4:     # product of another kind
                item["content"][1] = "mma2f" if rec["w"].startswith("2c") else "mma2c"
        elif x < 0.86 and not cdf:
            item["content"] = [rng.randrange(len(rec["files"])), g.pick(
                "empty", "junk:1:50", f"cut:{rng.randint(1, 999)}", f"flip:{rng.randrange(50)}:{g.pick(1, 2, 5)}")]
        elif x < 0.90 and not cdf:
            item["eof"] = round(g.r(), 4)
        elif rec["m"] in ("shc", "shcc"):
            item["streams"] = []
            for ref in rec["files"]:
                how = {"content": ref[1], "how": g.pick(*HOWS)}
                if how["how"] == "raw":
                    small = not ref[1].startswith(("chaos", "igrf1", "mf7", "sifm", "emmsv", "lcs"))
                    how["sizes"] = [g.pick(1, 2, 5, 100) if small else g.pick(500, 3000) for _ in range(rng.randint(1, 4))]
                    how["buf"] = g.pick(1, 16, 512) if small else 8192
                item["streams"].append(how)
            if g.r() < 0.5:
                how = rng.choice(item["streams"])
                how.clear()
                idx = item["streams"].index(how)
                how.update({"content": rec["files"][idx][1], "how": "faulty", "frac": round(g.r(), 4)})
        else:
            item["faults"] = [[round(g.r(), 4), g.pick(*HARD_READ), 0], [0.0, "SHORT", 5]]
        if "faults" in item and g.r() < 0.3:    # lasting fault
            item["last"] = 1
        if cdf and ":6_" in rec["files"][0][1] and "faults" in item and g.r() < 0.6:    # after the file is opened
            item["faults"] = [[round(1 - 0.05*g.r()/len(rec["files"]), 5), g.pick(*HARD_READ), 0]]
            item["last"] = 1
        rounds.append(item)
    other = g.evalop(rec=recipe(g) if g.r() < 0.3 else copy.deepcopy(rec), shape=g.pick([], [2], [3]))
    if other["m"] != rec:
        for idx, ref in enumerate(other["m"]["files"]):
            ref[0] = "o" + ref[0]
    return {"m": rec, "rounds": rounds, "warm": rng.random() < 0.7, "other": other, "pre": rng.random() < 0.6,
            "each": rng.random() < 0.5, "_lists": ["rounds"]}


def gen_parse(g, rng):
    oper = g.parseop()
    token = oper["content"]
    small = ":" in token
    rounds = []
    for _ in range(rng.randint(2, 6)):
        if g.r() < 0.35:
            rounds.append({"how": "faulty", "frac": round(g.r(), 4)})
            continue
        item = {"how": g.pick(*[how for how in HOWS if how != "path"])}
        if item["how"] == "raw":
            item["sizes"] = [g.pick(1, 2, 5, 100) if small else g.pick(500, 3000) for _ in range(rng.randint(1, 4))]
            item["buf"] = g.pick(1, 16, 512) if small else 8192
        rounds.append(item)
    return {"parse": dict(oper, how="stringio"), "rounds": rounds, "_lists": ["rounds"]}


def run_parse(sc, sim):
    """ The same content handed over as streams of different kinds. """
    oper = sc["parse"]
    nlines = contents.content(oper["content"]).count(b"\n")
    prev = None
    for idx, item in enumerate(sc["rounds"]):
        sim.at(idx)
        sim.count("fault:stream-" + item["how"])
        how = {**oper, **item}
        if "frac" in how:
            how["fail_at"] = int(how.pop("frac")*(nlines + 1))
        stream = ops.make_stream(how)
        got = ops.outcome(ops.run_parse, sim.env, oper, stream)
        sim.count("calls")
        sim.count("steps")
        if getattr(stream, "raised", False):
            if got != ["err", "OSError"]:
                sim.fail("absorbed", f"failed stream of {oper} ends with {str(got)[:300]} at {item}", idx)
        else:
            dif = diff(got, sim.expected(oper))
            if dif:
                sim.fail("changed", f"{dif} because of {item} parsing {oper}", idx)
        sim.sig(str([oper["fmt"], item["how"], got[0], prev]))
        prev = got[0]
    sim.count("nontrivial")


def oracle_ops(sc):
    if "parse" in sc:
        return [sc["parse"]]
    return [{"op": "load", "m": sc["m"]}, sc["other"]]


def put_files(env, obj):
    for ref in G._walk(obj):
        if isinstance(ref, list) and len(ref) == 2 and all(isinstance(v, str) for v in ref):
            env.file(ref)


def outcome(env, oper, osim):
    """ Outcome of the load, whether it failed in opening of a CDF file, and the
    number of files open when the exception is reported to the caller.
    """
    seen, held = [], [0]

    def _run():
        try:
            return ops.run(env, oper)
        except BaseException as exc:
            trace = exc.__traceback__
            while trace is not None:
                code = trace.tb_frame.f_code
                seen.append((os.path.basename(os.path.dirname(code.co_filename)), code.co_name))
                trace = trace.tb_next
            raise
    ops.on_error = lambda: held.append(osim.open_files())
    try:
        got = ops.outcome(_run)
    finally:
        ops.on_error = None
    return got, ("pycdf", "_open") in seen, held[-1]


def run(sc, sim):
    if "parse" in sc:
        run_parse(sc, sim)
        return
    env = sim.env
    rec = sc["m"]
    load = {"op": "load", "m": rec}
    put_files(env, rec)
    put_files(env, sc["other"]["m"])
    osim = sim.osim
    osim.lib.sim_watch((sim.work + "/").encode())
    want = sim.expected(load)
    cdf = rec["m"] == "mma"
    total = 8
    if sc["pre"]:
        sim.at(-2)
        sim.check(sc["other"], ops.outcome(ops.run, env, sc["other"]), kind="before")
    if sc["warm"]:
        sim.at(-1)
        osim.io_plan([])
        got = ops.outcome(ops.run, env, load)
        total, _ = osim.io_off()
        sim.check(load, got, kind="clean")
    before = osmod.fds()
    interesting = False
    prev = None
    for idx, item in enumerate(sc["rounds"]):
        sim.at(idx)
        oper, must, may = load, False, False
        if "content" in item:
            num, token = item["content"]
            slot, good = rec["files"][num]
            if token == "noaccess":
                token = "missing"
            if token.startswith(("cut", "flip")):
                token = f"{token}:{good}"
            env.world.put(slot, token)
            env.frozen = True
            must = token in ("missing", "dir", "mma2c", "mma2f")
            may = not must
            sim.count("fault:content-" + token.split(":")[0])
            interesting = True
        faults = []
        for frac, kind, arg in item.get("faults", ()):
            num = -frac if frac < 0 else 1 + math.floor(frac*total)
            faults.append((int(num), kind, arg))
            if item.get("last"):
                faults.extend((int(num) + i, kind, arg) for i in range(1, 100))
        streams = item.get("streams")
        if streams:
            made = []
            for how, ref in zip(streams, rec["files"]):
                if how["how"] == "path":
                    made.append(ref)
                    continue
                how = dict(how)
                if how["how"] == "faulty":
                    nlines = contents.content(how["content"]).count(b"\n")
                    how["fail_at"] = int(how.pop("frac")*(nlines + 1))
                how["stream"] = None
                made.append(how)
            oper = {"op": "load", "m": dict(rec, files=made)}
            interesting = True
            for how in streams:
                sim.count("fault:stream-" + how["how"])
        env.streams = []
        size = os.path.getsize(env.world.path(rec["files"][0][0])) if "eof" in item else 0
        osim.io_plan(faults, item.get("short", 0), int(item["eof"]*size) if "eof" in item else -1)
        got, opening, held = outcome(env, oper, osim)
        nops, fired = osim.io_off()
        env.frozen = False
        for kind, num in fired.items():
            sim.count("fault:io-" + kind, num)
        sim.count("steps", nops)
        sim.count("calls")
        hard = {k: n for k, n in fired.items() if k not in ("SHORT", "EINTR", "EOF")}
        broken = any(getattr(stream, "raised", False) for stream in env.streams)
        must = must or bool(hard) or broken
        may = may or "EOF" in fired
        interesting = interesting or bool(fired)
        what = f"{item} (operations {[f[0] for f in faults[:3]]}, fired {fired}) loading {rec}"
        if must:
            # the CDF library repeats a failed read
            if got[0] == "ok" and not (cdf and hard and diff(got, want) is None):
                sim.fail("absorbed", f"a model is made in spite of {what}", idx)
            sim.count("probe:reported")
        elif may:
            sim.count("probe:contained-" + got[0])
        else:
            dif = diff(got, want)
            if dif:
                sim.fail("changed", f"{dif} because of {what}", idx)
            sim.count("probe:tolerated")
        sim.sig(str([rec["m"], rec.get("w"), sorted(fired), [f[1] for f in faults[:3]], item.get("last"), item.get("content", [0, ""])[1][:4],
                     [h["how"] for h in streams or ()], int(10*min(1.0, (faults[0][0] if faults else 0)/max(1, total))), got[0], prev]))
        prev = got[0]
        if opening and cdf and hard:    # files which the CDF library itself failed to open
            sim.count("probe:cdf-open-failed")
            osim.lib.sim_watch((sim.work + "/").encode())
            before = osmod.fds()
        elif cdf and hard and got[0] == "err":
            sim.count("probe:cdf-read-failed")
        if held and not (opening and cdf and hard):
            sim.fail("open", f"{held} files are still open when the error is reported, after {what}", idx)
        if osim.open_files():
            sim.fail("open", f"{osim.open_files()} files are left open after {what}", idx)
        after = osmod.fds()
        if len(after) > len(before):
            sim.fail("fds", f"descriptors left open after {what}: {sorted(set(after.items()) - set(before.items()))}", idx)
        put_files(env, rec)
        if sc["each"] or idx == len(sc["rounds"]) - 1:
            sim.check(load, ops.outcome(ops.run, env, load), kind="later", at=idx)
            sim.check(sc["other"], ops.outcome(ops.run, env, sc["other"]), kind="existing", at=idx)
        if sim.viol:
            return
    if interesting:
        sim.count("nontrivial")

