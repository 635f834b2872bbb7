"""C06: faults of the quasi-dipole coefficient file are contained.

Histories of quasi-dipole evaluations by the real Fortran code on real files
which are missing, damaged or replaced between the calls, and whose opening and
reading is failed, shortened or interrupted by the operating system seam.
"""
import copy
import math
import re
import numpy as np
from sim import contents, gen as G, ops, osim as osmod
from sim.simrun import diff
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2000}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("A case is a history of 3-14 evaluations of quasi-dipole coordinates on 1-3 coefficient files, about half of them with "
        "a file or read fault; non-trivial if a fault fired or a damaged file was evaluated, and a fault-free evaluation followed.")
STATES = "distinct tuples (previous fault and outcome, fault and outcome, same file, same times, base vectors, fault-free file loaded before)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME[:1] + [
    "a read which fails behind the last number of the file goes unnoticed in the Fortran run-time library, the values are complete then",
    "a damaged file must be rejected if it holds fewer numbers than its header declares, or a word in place of a number; other damages must only be contained",
    "a file replaced in place differs from the earlier one in its time stamp or size"]

HARD_OPEN = ["ENOENT", "EACCES", "EMFILE", "ENOMEM", "EIO", "STALE"]
HARD_READ = ["EIO", "EIO", "STALE", "ENOMEM"]
TOKENS = ["abc", "1.0x", "/", "nan", "inf", ",,", "1e999", "-", "1.0d", "12*", "$", "'a'", "(1,2)", "T", "&x"]


def fault(g, rng):
    x = g.r()
    if x < 0.30:
        first = g.r() < 0.35
        return {"io": [[1 if first else rng.randint(1, 12), g.pick(*(HARD_OPEN if first else HARD_READ)), 0]], "last": int(g.r() < 0.2)}
    if x < 0.36:    # any point of the file
        return {"io": [[-round(g.r(), 4), g.pick(*HARD_READ), 0]]}
    if x < 0.44:
        return {"io": [[rng.randint(1, 20), g.pick("SHORT", "SHORT", "EINTR"), g.pick(1, 3, 80)] for _ in range(rng.randint(1, 4))]}
    if x < 0.50:
        return {"io": [], "short": g.pick(7, 64, 100, 1000, 4096)}
    if x < 0.56:
        return {"io": [], "eof": round(g.r(), 4)}
    if x < 0.70:
        return {"content": g.pick("missing", "dir", "missing", "empty")}
    if x < 0.80:
        return {"content": f"cut:{g.pick(rng.randint(1, 999), rng.randint(1, 20), rng.randint(990, 999))}"}
    if x < 0.83:    # epochs
        return {"content": f"tok:{rng.randint(5, 7)}:{g.pick('0', '-5', '1994.5', '1995.0', '2000', '2000.0', '2005.00', '2100.0')}"}
    if x < 0.93:
        return {"content": f"tok:{g.pick(rng.randint(0, 4), rng.randint(0, 8), rng.randint(0, 10**6))}:{g.pick(*TOKENS, '-1', '0', '99999', '2147483647', '99999999999', '3.5')}"}
    if x < 0.97:
        return {"content": f"flip:{rng.randrange(100)}:{g.pick(1, 3, 10)}"}
    return {"content": g.pick("junk:1:300", "junk:2:9000", "text:hello world", "text: 2 3 2 1", "text: 1 1 1 0 4|2000.0|", "text: 2 3 2 1 30|2000.0 1990.0")}


def gen(rng, tier, seed):
    g = G.Gen(rng, apex_big=rng.choice([0.0, 0.05, 0.2]))
    nslots = g.nslots
    names = ["q0.txt", "q1.txt", "long" + "a"*240 + "/" + "b"*100 + ".txt", "deep" + ("/" + "d"*200)*3 + "/q.txt", "sp ace .txt", "q2.txt "]
    items = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 14)):
        if items and g.r() < 0.5:
            oper = copy.deepcopy(rng.choice(items[-3:])["o"])
            if g.r() < 0.6:
                oper = g.variant(oper)
        else:
            oper = g.pwop("qd", shape=g.pick([], [1], [2], [3], [6]))
        oper["p"].setdefault("file", g.apex())
        ref = oper["p"]["file"]
        if ref[0].startswith("q") and ref[0][1].isdigit() and len(ref[0]) == 6:
            ref[0] = names[int(ref[0][1]) % nslots] if nslots < 4 else rng.choice(names)
        if ref[0].startswith("vq"):
            ref[0] = "q1.txt"
        item = {"o": oper}
        if g.r() < 0.5:
            item["f"] = fault(g, rng)
        items.append(item)
    if g.r() < 0.1:     # the default file
        rng.choice(items)["o"]["p"].pop("file")
    for item in items:
        if "file" not in item["o"]["p"]:
            item.pop("f", None)
    return {"ops": items, "put": rng.choice(["rename", "inplace"]),
            "fill": [rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))] if rng.random() < 0.5 else None}


def damaged(item):
    """ The operation on the damaged file. """
    oper = item["o"]
    content = item.get("f", {}).get("content")
    if not content:
        return oper
    oper = copy.deepcopy(oper)
    good = oper["p"]["file"][1]
    oper["p"]["file"][1] = f"{content}:{good}" if content.startswith(("cut", "tok", "flip")) else content
    return oper


def oracle_ops(sc):
    return [damaged(item) for item in sc["ops"]] + [item["o"] for item in sc["ops"]]


def numbers(token):
    """ Number of items the file should hold and holds, None if not clear. """
    words = contents.content(token).split()
    try:
        nepoch, _, _, _, nterm = (int(word) for word in words[:5])
    except ValueError:
        return None
    return 5 + nepoch + 6*nepoch*nterm, len(words)


def must_fail(content, good):
    """ Is the damage such that no conforming reader can accept the file? """
    if content in ("missing", "dir", "empty") or content.startswith(("junk", "text")):
        return True
    if content.startswith("cut"):
        count = numbers(content + ":" + good)
        return count is None or count[1] < count[0]
    if content.startswith("tok"):
        _, pos, word = content.split(":")
        count = numbers(good)
        words = contents.content(good).split()
        pos = int(pos) % len(words)
        if pos >= count[0]:
            return False
        nepoch = int(words[0])
        if 5 <= pos < 5 + nepoch and re.fullmatch(r"-?\d+(\.\d*)?", word):   # epochs out of order
            epochs = [np.float32(item) for item in words[5:5 + nepoch]]
            epochs[pos - 5] = np.float32(word)
            return any(first >= second for first, second in zip(epochs, epochs[1:]))
        return word in ("abc", "1.0x", "/", "nan", "inf", "$", "'a'", "(1,2)", "T", "&x", "-") or (pos < 5 and word in ("3.5", "99999999999", "-1"))
    return False


def run(sc, sim):
    env = sim.env
    env.put_mode = sc["put"]
    osim = sim.osim
    if sc["fill"]:
        osim.lib.sim_guard(1)
        osim.fill(1, common.FILLS[sc["fill"][0]], common.FILLS[sc["fill"][1]])
    osim.lib.sim_watch((sim.work + "/").encode())
    before = osmod.fds()
    hit = after = 0
    prev = None
    last_file = last_args = None
    loaded = set()
    for idx, item in enumerate(sc["ops"]):
        sim.at(idx)
        flt = item.get("f") or {}
        oper = damaged(item)
        args = ops.build_args(env, oper)
        try:
            samples = int((~np.isnan(np.asarray(args["t"], dtype="f8"))).sum())   # undefined times need no file
        except (TypeError, ValueError):
            samples = 0
        must = False
        faults = []
        if "file" in oper["p"]:
            path = env.file(oper["p"]["file"])
            if "content" in flt:
                must = must_fail(flt["content"], item["o"]["p"]["file"][1]) and samples > 0
                sim.count("fault:content-" + flt["content"].split(":")[0])
            total = 2
            if "io" in flt or "eof" in flt:
                total = max(2, 2 + len(contents.content(oper["p"]["file"][1]))//8192)
            for num, kind, arg in flt.get("io", ()):
                num = num if num > 0 else 1 + math.floor(-num*total)
                faults.append((num, kind, arg))
                if flt.get("last"):
                    faults.extend((num + i, kind, arg) for i in range(1, 50))
            size = len(contents.content(oper["p"]["file"][1])) if "eof" in flt else 0
        env.frozen = True
        osim.io_plan(faults, flt.get("short", 0), int(flt["eof"]*size) if "eof" in flt else -1)
        got = ops.outcome(ops.run, env, oper, args)
        nops, fired = osim.io_off()
        env.frozen = False
        for kind, num in fired.items():
            sim.count("fault:io-" + kind, num)
        sim.count("steps", nops + 1)
        sim.count("calls")
        hard = {k: n for k, n in fired.items() if k not in ("SHORT", "EINTR", "EOF")}
        want = sim.expected(oper)
        # a failed attempt to read behind the last number is not noticed by the Fortran library
        must = must or (bool(hard) and diff(got, want) is not None)
        if "eof" in flt and fired.get("EOF") and samples:
            count = numbers(oper["p"]["file"][1])
            have = len(contents.content(oper["p"]["file"][1])[:int(flt["eof"]*size)].split())
            must = must or (count is not None and have < count[0])
        what = f"{flt} (fired {fired}) evaluating {str(oper)[:900]}"
        if must and got[0] == "ok":
            sim.fail("absorbed", f"quasi-dipole coordinates are evaluated in spite of {what}", idx)
        elif not must and not (fired.get("EOF") and got[0] == "err"):
            dif = diff(got, want)
            if dif:
                sim.fail("changed", f"{dif} because of the earlier faults, or of {what}", idx)
        elif "content" in flt and want[0] == "err" and diff(got, want):
            sim.fail("changed", f"{diff(got, want)} because of the earlier faults, or of {what}", idx)
        if osim.open_files():
            sim.fail("open", f"the coefficient file is left open after {what}", idx)
        now = osmod.fds()
        if len(now) > len(before):
            sim.fail("fds", f"descriptors left open after {what}: {sorted(set(now.items()) - set(before.items()))}", idx)
        bad = bool(fired) or "content" in flt
        hit += bad
        after += hit > 0 and not bad and got[0] == "ok"
        name = str(oper["p"].get("file"))
        times = str(oper["a"]["t"])
        state = [sorted(fired), flt.get("content", "")[:5], got[0]]
        sim.sig(str([prev, state, name == last_file, times == last_args, oper["p"].get("base"), name in loaded]))
        prev, last_file, last_args = state, name, times
        if got[0] == "ok":
            loaded.add(name)
        else:
            sim.count("probe:reported")
        if sim.viol:
            return
    if osim.get("sim_corruptions"):
        sim.fail("corruption", "memory block overrun")
    if hit and after:
        sim.count("nontrivial")
