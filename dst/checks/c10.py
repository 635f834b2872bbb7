"""C10: calls return every resource they take.

Short histories of calls, successful or failing (invalid arguments, injected
faults, raising models, interrupting signals), are repeated many times while
the memory, the references, the descriptors and the threads are counted.
"""
import copy
import gc
import json
import os
import pickle
import signal
import sys
from array import array
import numpy as np
from sim import gen as G, ops, osim as osmod
from sim.simrun import diff
from . import common
from .c04 import MASKS

LEVEL = "exploration"
PLAN = {"quick": {"runs": 4500}, "thorough": {"runs": 40000, "wall": 3000}}
CPU_LIMIT, WALL_LIMIT = 200, 400
RULE = ("A case is a history of 1-3 calls repeated 9-60 times after a warm-up (24-600 more times when the counts grow); calls "
        "succeed, have invalid arguments, or a fault is injected in each repetition (failed allocation, failed or shortened read, "
        "a signal whose handler raises, a failing component); non-trivial always.")
STATES = "distinct tuples (operation, function or model kind, injected fault, outcome)"
REAL, STUB = common.REAL, common.STUB + ["the moment at which a signal becomes pending (simos.so)"]
ASSUMPTIONS = common.ASSUME[:1] + [
    "resources held by caches of a bounded size (up to about 600 entries) are not leaks",
    "openings of CDF files which fail inside of the CDF library are not repeated: the library itself leaks",
    "what is released only by the cyclic garbage collector is not a leak",
]
SMALL = ("shc:", "igrf:", "wmm:", "emms:", "emmv:", "mio", "mma", "apex", "igrf11", "wmm15", "junk", "empty", "missing", "dir", "cut", "flip")
HEAVY = ("load", "fresh", "info", "trace", "parse", "compose", "copy")


class Injected(Exception):
    """ Exception of the signal handler. """


def files(obj):
    for ref in G._walk(obj):
        if isinstance(ref, list) and len(ref) == 2 and all(isinstance(v, str) for v in ref) and "." in ref[0]:
            yield ref


def small(oper):
    for ref in files(oper):
        if not ref[1].startswith(SMALL) or ref[1].startswith(("cut", "flip")) and not ref[1].split(":", 2)[2].startswith(SMALL):
            return False
    for item in G._walk(oper):
        if isinstance(item, dict) and "sh" in item and np.prod(item["sh"], initial=1) > 64:
            return False
    return True


def boom(g, rng):
    """ Composed model with a component failing on request. """
    rec = g._recipe("composed", 1)
    rec["items"].insert(rng.randrange(len(rec["items"]) + 1), [{"m": "stub", "spec": {"amp": 2.0, "boom": 1}}, 1.0, {}])
    return {**g.evalop(rec), "boom": 1}


def one(g, rng):
    x = g.r()
    if x < 0.36:
        return g.pwop(heavy=0.5)
    if x < 0.48:
        return g.evalop()
    if x < 0.57:
        return g.badop()
    if x < 0.67:
        return g.badarg()
    if x < 0.72:
        return boom(g, rng)
    if x < 0.75:
        return g.cevalop()
    if x < 0.81:
        return {"op": "load", "m": g.recipe(kinds=("shc", "shcc", "igrf", "wmm", "emm", "mioi", "mioe", "mma", "mma"))}
    if x < 0.84:
        rec = g._recipe("mma", 0)   # the wrong type of product
        rec["files"] = [[ref[0], g.pick("mma2c", "mma2f", "mmach")] for ref in rec["files"]]
        return {"op": "load", "m": rec}
    if x < 0.88:
        return {**g.evalop(g.recipe(kinds=("shc", "igrf", "wmm", "coef", "ccomp", "ccomb", "dip", "mioi", "composed", "composed"))), "op": "fresh"}
    if x < 0.92:
        return {"op": "compose", "items": g._recipe("composed", 0)["items"], "bad": g.pick(0, 0, 1)}
    if x < 0.95:
        return {"op": "copy", "m": g.recipe(kinds=("shc", "igrf", "coef", "ccomp", "dip", "mioi", "composed")), "how": g.pick("pickle", "deepcopy", "copy")}
    if x < 0.97:
        return g.traceop()
    if x < 0.985:
        return g.parseop()
    return g.miscop()


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.0, maxn=12, apex_big=0.0)
    items = []
    for _ in range(g.pick(1, 1, 1, 2, 3)):
        for _ in range(200):
            oper = one(g, rng)
            if small(oper):
                break
        item = {"o": oper}
        cdf = any(ref[0].endswith((".cdf", ".cdf2f")) for ref in files(oper))
        x = g.r()
        if oper.get("boom"):
            oper["opt"] = {"boom": 1}
        if x < 0.25:
            item["a"] = [g.pick("code", "code", "numpy", "obj", "all", "all"), int(g.r() < 0.3), round(g.r(), 4)]
        elif x < 0.35 and not cdf and list(files(oper)) and oper["op"] in ("load", "pw"):
            item["io"] = [[round(g.r(), 4), g.pick("EIO", "EIO", "STALE", "ENOENT", "EMFILE", "SHORT"), g.pick(0, 5, 40)]]
        elif x < 0.45 and not cdf and oper["op"] not in ("pw", "misc", "dt", "rotmat"):
            item["s"] = [g.pick("u", "f", "l"), round(g.r(), 5)]
        elif x < 0.6 and oper["op"] in ("pw", "eval", "ceval", "fresh"):
            item["vary"] = 1
        if oper.get("f") == "qd" and g.r() < 0.6:
            item["pre"] = {**oper, "a": {"a": [1.0], "o": [2.0], "r": [7000.0], "t": [2000.0]},
                           "p": {"base": 0, "file": ["pre.txt", g.pick("apex:0", "apex:7:2:4:3:2")]}}
            item["pre"].pop("bad", None)
        items.append(item)
    return {"ops": items}


def shrinks(sc):
    for idx, item in enumerate(sc["ops"]):
        for key in ("a", "io", "s", "vary", "pre"):
            if key in item:
                yield {**sc, "ops": sc["ops"][:idx] + [{k: v for k, v in item.items() if k != key}] + sc["ops"][idx + 1:]}


def heavy(item):
    return item["o"]["op"] in HEAVY or "io" in item or "s" in item or "pre" in item or item["o"].get("f") == "qd" or any(
        ref[0].endswith((".cdf", ".cdf2f")) for ref in files(item["o"]))


class Runner:
    def __init__(self, sc, sim):
        self.sim, self.env, self.osim = sim, sim.env, sim.osim
        self.items = sc["ops"]
        self.pkg = os.path.dirname(ops.em().__file__) + "/"
        self.armed = False
        self.round = 0
        self.cdf = False    # opening failed in the CDF library
        signal.signal(signal.SIGALRM, self.handler)
        self.args = [self.build(item["o"]) for item in self.items]
        self.points = [None]*len(self.items)

    def build(self, oper):
        if oper["op"] == "fresh":
            return ops.build_args(self.env, {**oper, "op": "eval"})
        return ops.build_args(self.env, oper)

    def handler(self, signum, frame):
        if not self.armed:
            return
        self.armed = False
        while frame is not None:    # only inside of the package
            if frame.f_code.co_filename.startswith(self.pkg):
                raise Injected
            frame = frame.f_back

    def perform(self, oper, args):
        env = self.env
        if oper["op"] == "fresh":
            new = ops.Env(env.world)
            return ops.run(new, {**oper, "op": "eval"}, args)
        if oper["op"] == "compose":
            model = ops.em().ComposedGeomagneticModel()
            for rec, scale, params in oper["items"]:
                model.push(env.model(rec), scale, **params)
            if oper["bad"]:
                model.push(1, 2, 3, 4)
            return ops.info(model)
        if oper["op"] == "copy":
            model = env.model(oper["m"])
            if oper["how"] == "pickle":
                model = pickle.loads(pickle.dumps(model))
            else:
                model = getattr(copy, oper["how"])(model)
            return ops.info(model)
        return ops.run(env, oper, args)

    def attempt(self, oper, args):
        try:
            out = ["ok", self.perform(oper, args)]
        except (Exception, KeyboardInterrupt) as exc:
            trace = exc.__traceback__
            while trace is not None and not self.cdf:
                code = trace.tb_frame.f_code
                self.cdf = code.co_name == "_open" and "pycdf" in code.co_filename
                trace = trace.tb_next
            trace = code = None
            out = ["err", ops.error_kind(exc)]
        return out

    def prepare(self):
        """ Find out the points of the injected faults. """
        for idx, item in enumerate(self.items):
            oper, args = item["o"], self.args[idx]
            self.attempt(oper, args)
            if "pre" in item:
                ops.outcome(ops.run, self.env, item["pre"])
            if "a" in item:
                kind, follow, frac = item["a"]
                self.osim.alloc_plan(MASKS[kind], [])
                self.attempt(oper, args)
                total, _ = self.osim.alloc_off()
                if total:
                    point = 1 + int(frac*total)
                    self.points[idx] = (MASKS[kind], [-point if follow else point])
            elif "io" in item:
                self.osim.lib.sim_watch((self.sim.work + "/").encode())
                self.osim.io_plan([])
                self.attempt(oper, args)
                total, _ = self.osim.io_off()
                if total:
                    self.points[idx] = [(1 + int(frac*total), kind, arg) for frac, kind, arg in item["io"]]
            elif "s" in item:
                self.osim.sig_arm(self.pkg, signal.SIGALRM, -1)
                self.attempt(oper, args)
                total, _ = self.osim.sig_off()
                sites = self.osim.sig_sites()[:2500]
                if total and sites:
                    mode, frac = item["s"]
                    self.points[idx] = 1 + int(frac*total) if mode == "u" else sites[min(int(frac*len(sites)), len(sites) - 1)]["fl".index(mode)]

    def varied(self, oper):
        """ The call with other values. """
        oper = copy.deepcopy(oper)
        for key in ("a", "t", "x", "opt"):
            for item in G._walk(oper.get(key)):
                if isinstance(item, dict) and "s" in item and "k" in item:
                    item["s"] += 1000*self.round
        if "pole" in oper.get("p", {}):
            lat, lon = oper["p"]["pole"]
            oper["p"]["pole"] = [lat, (lon + 180 + 0.37*self.round) % 360 - 180]
        if oper["op"] == "fresh":
            for item in G._walk(oper["m"]):
                if isinstance(item, dict) and "seed" in item:
                    item["seed"] += self.round
        return oper

    def cycle(self, want=None):
        osim = self.osim
        self.round += 1
        for idx, item in enumerate(self.items):
            oper, args, point = item["o"], self.args[idx], self.points[idx]
            if "pre" in item:
                ops.outcome(ops.run, self.env, item["pre"])
            if "vary" in item:
                oper = self.varied(oper)
                args = self.build(oper)
            if point is None:
                out = self.attempt(oper, args)
                fault = None
            elif "a" in item:
                osim.alloc_plan(*point)
                out = self.attempt(oper, args)
                fault = osim.alloc_off()[1] and "alloc-" + item["a"][0]
            elif "io" in item:
                osim.io_plan(point)
                out = self.attempt(oper, args)
                fault = osim.io_off()[1] and "io-" + item["io"][0][1]
            else:
                self.armed = True
                osim.sig_arm(self.pkg, signal.SIGALRM, point)
                try:
                    out = self.attempt(oper, args)
                finally:
                    osim.sig_off()
                    fault = not self.armed and "signal"
                    self.armed = False
            if want is not None:
                want.append((oper["op"], oper.get("f") or (oper.get("m") or {}).get("m"), out[0] if out[0] == "ok" else out[1], fault))
            out = args = None

    def creates(self):
        """ Is anything else than a function of the extensions called? """
        seen = set()

        def profile(frame, event, arg):
            if event == "call":
                name = frame.f_code.co_filename
                if name.startswith(self.pkg) or "/numpy/" in name:
                    seen.add(("numpy", frame.f_code.co_name))
            elif event == "c_call":
                seen.add((str(getattr(arg, "__module__", None)).split(".")[0], arg.__name__))
        sys.setprofile(profile)
        try:
            self.cycle()
        finally:
            sys.setprofile(None)
        return any(mod == "numpy" and name not in ("asarray", "array") for mod, name in seen)

    def watched(self):
        """ Objects whose references are counted. """
        out = {f"dtype {name}": np.dtype(name) for name in ("f8", "i4", "i8", "O", "bool")}
        for key, model in self.env.models.items():
            out["model " + key[:100]] = model
            for name in ("coefficients", "_components"):
                if hasattr(model, name):
                    out[f"{name} {key[:100]}"] = getattr(model, name)
        for idx, args in enumerate(self.args):
            for path, value in walk(args, f"{idx}"):
                out["argument " + path] = value
        pkg = ops.em()
        for name in ("_pymm", "_pyqd", "_pysunpos", "_pytimeconv"):
            mod = getattr(pkg, name, None)
            for key, value in sorted(vars(mod).items()) if mod else ():
                if not key.startswith("__") and not isinstance(value, (int, str)):
                    out[f"{name}.{key}"] = value
        for mod in (pkg, np):
            out["module " + mod.__name__] = mod
        return out


def walk(value, path):
    if isinstance(value, np.ndarray):
        yield path, value
    elif isinstance(value, dict):
        yield path, value
        for key, item in value.items():
            yield from walk(item, f"{path}.{key}")
    elif isinstance(value, (list, tuple)):
        yield path, value


NAMES = ["blocks of memory", "bytes of memory", "interpreter's blocks of memory", "descriptors", "threads"]


def run(sc, sim):
    osim = sim.osim
    runner = Runner(sc, sim)
    runner.prepare()
    want = []
    for _ in range(2):
        runner.cycle(want)
    for state in want:
        sim.sig(str(list(state)))
        if state[3]:
            sim.count("fault:" + state[3])
        sim.count("probe:outcome-" + state[2])
    if runner.cdf:
        sim.count("probe:cdf-open-failed")
        return
    slow = any(heavy(item) for item in sc["ops"])
    vary = any("vary" in item for item in sc["ops"])
    watched = runner.watched()
    names = NAMES + ["references to " + name for name in watched]
    objs = list(watched.values())
    watched = None
    nobj, nmet = len(objs), len(names)
    osim.lib.sim_track(1)
    buf = [array("q", [0]*nmet) for _ in range(3)]

    def measure(out):
        gc.collect()
        sys._clear_type_cache()     # it keeps names of attributes
        out[3] = len(os.listdir("/proc/self/fd"))
        out[4] = len(os.listdir("/proc/self/task"))
        for i in range(nobj):
            out[5 + i] = sys.getrefcount(objs[i])
        out[0] = osim.lib.sim_live_blocks()
        out[1] = osim.lib.sim_live_bytes()
        out[2] = sys.getallocatedblocks()

    def repeat(num):
        for _ in range(num):
            runner.cycle()
        sim.count("calls", num*len(sc["ops"]))
        sim.count("steps", num*len(sc["ops"]))

    def growing(first, second, num):
        need = max(2, int(0.3*num))
        lims = [need, 100*num, int(0.95*num), max(1, need//3), 1] + [need]*nobj
        return [i for i in range(nmet) if second[i] - first[i] >= lims[i]]

    measure(buf[0])     # whatever it needs itself
    repeat(8 if slow else 30)
    num = 9 if slow else 60
    measure(buf[0])
    repeat(num)
    measure(buf[1])
    bad = growing(buf[0], buf[1], num)
    if bad:
        sim.count("probe:suspected")
        if any(name.startswith("references to dtype") for i in bad for name in [names[i]]) and runner.creates():
            # numpy itself forgets references to its types when it makes an array
            bad = [i for i in bad if not names[i].startswith("references to dtype")]
        for step, num in enumerate((30, 40, 60, 60) if slow and bad else (300, 300, 600) if bad else ()):
            if step == 0 and vary:
                repeat(200 if slow else 1500)
            measure(buf[0])
            repeat(num)
            measure(buf[1])
            bad = [i for i in growing(buf[0], buf[1], num) if i in bad]
            if not bad:
                break
    if bad:
        growth = ", ".join(f"{buf[1][i] - buf[0][i]} {names[i]}" for i in bad)
        sim.fail("leak", f"left by {num} repetitions: {growth}; outcomes {want[len(sc['ops']):]} of {json.dumps(sc['ops'])[:1500]}")
    sim.count("nontrivial")
