"""C02: concurrent callers get the results they would get alone.

Two to four simulated threads call the package at the same time, on shared
model objects and files. One thread runs at a time, every switch is decided by
the seeded scheduler.
"""
import copy
import itertools
import json
import os
import numpy as np
from sim import gen as G, ops, osim as osmod, sched as S
from sim.simrun import diff
from . import common

LEVEL = "exploration"
NEEDS_CDF = True
ENV = {"DST_LOCKS": "1"}
CPU_LIMIT, WALL_LIMIT = 120, 240
PLAN = {"quick": {"runs": 2600, "wall": 200}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("A case is 2-4 threads of 1-4 calls each (same or different model objects, files and quasi-dipole tables, CDF products, "
        "composed models being extended, calls which fail or are killed), executed under one seeded schedule: random switches of a "
        "seeded probability at every yield point, or 1-6 preemptions at seeded points; non-trivial if at least one thread was "
        "preempted inside of a call and another one made a call meanwhile.")
STATES = "distinct pairs of places in the code (where a thread was preempted, where the one running instead has been resumed)"
REAL = common.REAL + ["operating system threads (one running at a time)"]
STUB = common.STUB + ["thread scheduling (sim/sched.py, simos.so)", "locks of the threading module (sim/locks.py)"]
ASSUMPTIONS = common.ASSUME + [
    "a thread is switched at starts of functions and lines, after calls and loop passes of the Python code of the package and of "
    "spacepy.pycdf, at entries of native functions of the package executed without the interpreter lock, and at lock operations",
    "the compiled code holding the interpreter lock is not interrupted by another thread calling the package"]
LIVE = ("push", "leval", "lval", "lpar")


def _freeze_files(g, oper, state):
    """ One content per file for the whole scenario. """
    for ref in G._walk(oper):
        if not (isinstance(ref, list) and len(ref) == 2 and all(isinstance(v, str) for v in ref) and _isfile(ref[0])):
            continue
        if state.get(ref[0], ref[1]) != ref[1]:
            num = 0
            while state.get(f"f{num}{ref[0]}", ref[1]) != ref[1]:
                num += 1
            ref[0] = f"f{num}{ref[0]}"
        state[ref[0]] = ref[1]


def _isfile(name):
    return name.endswith((".txt", ".shc", "igrf", ".cof", "emms", "emmv", ".mio", ".cdf", "df2f"))


def live_item(g, rng, nth):
    if g.r() < 0.75:
        rec = {"m": "stub", "spec": {"amp": round(rng.uniform(1, 2)*3.0**nth, 3)}}
        if g.r() < 0.4:
            rec["spec"]["validity"] = [-5000.0 + 100.0*nth, 20000.0 - 300.0*nth]
        if g.r() < 0.3:
            rec["spec"]["parameters"] = ["time", "location", f"p{nth}"]
    else:
        rec = g._recipe(g.pick("coef", "dip", "mioi", "composed"), 1)
    params = {}
    if rec["m"] == "mioi":
        params["f107"] = 100.0
    return [rec, g.pick(1.0, 1.0, -1.0, 0.5), params]


def hammer(g, rng):
    """ Threads repeating few similar calls, switched often. """
    if g.r() < 0.75:
        rec = g._recipe(g.pick("shc", "igrf", "emm", "coef", "coef", "ccomp", "ccomb", "dip", "mioi", "mioe", "mma", "composed"), 0)
        base = g.evalop(rec, shape=g.pick([], [], [2], [3]))
    elif g.r() < 0.4:
        base = g.cevalop()
    else:
        base = g.pwop(shape=g.pick([], [2], [3]))
    calls = [base]
    degrees = None
    if base["op"] in ("eval", "ceval") and g.r() < 0.5:     # another part of the model in each
        degrees = [{"max_degree": 1}, {"max_degree": 2}, {"min_degree": 2}, {}, {"min_degree": 2, "max_degree": 2}, {"max_degree": 3}]
        rng.shuffle(degrees)
        opt = base.setdefault("opt", {})
        opt.pop("min_degree", None), opt.pop("max_degree", None)
    for _ in range(rng.randint(1, 2)):
        oper = copy.deepcopy(base)
        if not degrees or g.r() < 0.3:
            if oper["op"] == "eval" and g.r() < 0.6:
                oper = g.evalop(base["m"], shape=g.pick([], [], [2], [3]))
            else:
                oper = g.variant(oper)
                if "m" in base:
                    oper["m"] = copy.deepcopy(base["m"])
        calls.append(oper)
    for oper in calls:
        if degrees:
            oper["opt"] = {**oper.get("opt", {}), **degrees.pop()}
    files = {}
    for oper in calls:
        _freeze_files(g, oper, files)
    threads = [[copy.deepcopy(rng.choice(calls) if pos else calls[tid % len(calls)]) for pos in range(rng.randint(2, 6))]
               for tid in range(g.pick(2, 2, 3))]
    return {"threads": threads, "plan": ["rand", g.pick(0.05, 0.15, 0.3, 0.5), rng.randrange(1 << 40)],
            "lazy": rng.randrange(3), "args": rng.randrange(2), "_lists": []}


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.0, maxn=12, apex_big=0.04)
    if g.r() < 0.45:
        return hammer(g, rng)
    nthreads = g.pick(2, 2, 2, 3, 3, 4)
    profile = g.pick("model", "model", "model", "cdf", "cdf", "live", "live", "load", "qd", "mixed", "mixed")
    files = {}
    pushes = 0
    base = None
    if profile == "model":
        base = g.evalop(g._recipe(g.pick("shc", "shcc", "igrf", "wmm", "emm", "coef", "coef", "ccomp", "ccomb", "dip", "mioi",
                                         "mioe", "mma", "composed", "composed"), 0))
    elif profile == "load":
        base = {"op": "load", "m": g._recipe(g.pick("shc", "shcc", "igrf", "wmm", "emm", "mioi", "mioe"), 0)}
    elif profile == "qd":
        base = g.pwop("qd")
    threads = []
    for _ in range(nthreads):
        items = []
        for _ in range(rng.randint(1, 3 if tier == "quick" else 5)):
            x = g.r()
            if profile == "live" and x < 0.8:
                if g.r() < 0.45 and pushes < 7:
                    oper = {"op": "push", "item": live_item(g, rng, pushes)}
                    pushes += 1
                elif g.r() < 0.3:
                    oper = {"op": g.pick("lval", "lpar")}
                else:
                    oper = g.evalop({"m": "stub"}, shape=g.pick([], [2], [3]), opts=False)
                    del oper["m"]
                    oper = {**oper, "op": "leval"}
                    if g.r() < 0.3:
                        oper["opt"] = {"scale": g.pick(2.0, -1.0)}
            elif profile == "cdf" and x < 0.85:
                rec = g._recipe("mma", 0)
                x = g.r()
                if x < 0.12:
                    rec = {**rec, "files": [[ref[0], g.pick("junk:1:300", "empty", "missing", f"cut:400:{ref[1]}")] for ref in rec["files"]]}
                oper = {"op": "load", "m": rec} if g.r() < 0.8 or x < 0.12 else g.evalop(rec)
            elif base is not None and x < 0.85:
                oper = copy.deepcopy(base)
                y = g.r()
                if y < 0.7:
                    if oper["op"] == "eval":    # the same model object, other arguments
                        oper = g.evalop(oper["m"]) if y < 0.5 else g.variant(oper)
                        if y >= 0.5:
                            oper["m"] = copy.deepcopy(base["m"])
                        elif y < 0.04:
                            oper = {"op": "info", "m": oper["m"]}
                        elif y < 0.08:
                            oper = g.traceop(oper["m"])
                        if oper["op"] == "eval" and g.r() < 0.5:
                            # the part of the model evaluated differs
                            opt = oper.setdefault("opt", {})
                            for key in g.pick(["max_degree"], ["max_degree"], ["min_degree"], ["min_degree", "max_degree"]):
                                opt[key] = g.pick(1, 1, 2, 2, 3, 4) if key[1] == "a" else g.pick(1, 2, 3)
                    else:
                        oper = g.variant(oper)
            else:
                oper = g.op(bad=0.1)
            _freeze_files(g, oper, files)
            items.append(oper)
        threads.append(items)
    x = g.r()
    if x < 0.6:
        plan = ["rand", g.pick(0.003, 0.01, 0.03, 0.1, 0.3, 0.6), rng.randrange(1 << 40)]
    else:
        plan = ["pre", sorted([round(g.r(), 5), rng.randrange(nthreads)] for _ in range(rng.randint(1, 6)))]
    sc = {"threads": threads, "plan": plan, "lazy": rng.randrange(3), "args": rng.randrange(2), "_lists": []}
    if g.r() < 0.15:
        sc["kill"] = {str(rng.randrange(nthreads)): int(10**rng.uniform(0, 3.3))}
    return sc


def oracle_ops(sc):
    return [oper for items in sc["threads"] for oper in items if oper["op"] not in LIVE]


def shrinks(sc):
    if sc.get("kill"):
        yield {key: value for key, value in sc.items() if key != "kill"}
    plan = sc["plan"]
    if plan[0] in ("pre", "script"):
        size = len(plan[1])
        step = max(1, size//2)
        while size and step >= 1:
            for pos in range(0, size, step):
                yield {**sc, "plan": [plan[0], plan[1][:pos] + plan[1][pos + step:]]}
            if step == 1:
                break
            step //= 2
    for tid, items in enumerate(sc["threads"]):
        for pos in range(len(items)):
            threads = copy.deepcopy(sc["threads"])
            del threads[tid][pos]
            yield {**sc, "threads": threads}


class Run:
    def __init__(self, sc, sim):
        self.sc, self.sim, self.env = sc, sim, sim.env
        self.seq = 0
        self.live = ops.em().ComposedGeomagneticModel()
        self.shared = {}
        self.history = []
        pkg = os.path.dirname(ops.em().__file__) + "/"
        import spacepy.pycdf
        self.roots = [pkg, os.path.dirname(spacepy.pycdf.__file__) + "/"]

    def setup(self):
        env, sc = self.env, self.sc
        for items in sc["threads"]:
            for oper in items:
                for ref in G._walk(oper):
                    if isinstance(ref, list) and len(ref) == 2 and all(isinstance(v, str) for v in ref) and _isfile(ref[0]):
                        env.world.put(ref[0], ref[1])
        env.frozen = True
        for items in sc["threads"]:
            for oper in items:
                if oper["op"] == "push":
                    env.model(oper["item"][0])
                elif oper["op"] in ("eval", "trace", "info") and not oper.get("bad") and sc["lazy"] != 2:
                    try:
                        env.model(oper["m"])
                    except Exception:
                        pass
                elif oper["op"] == "ceval" and sc["lazy"] != 2:
                    ops.env_coef(env, oper["c"])

    def args_of(self, oper):
        kind = oper["op"]
        if not self.sc["args"]:
            return self._args(oper)
        key = json.dumps({k: v for k, v in oper.items() if k not in ("m", "c")}, sort_keys=True)
        if key not in self.shared:      # the same arrays passed by all threads
            self.shared[key] = self._args(oper)
        return self.shared[key]

    def _args(self, oper):
        return ops.build_args(self.env, {**oper, "op": "eval"} if oper["op"] == "leval" else oper)

    def perform(self, oper, args):
        kind = oper["op"]
        if kind == "push":
            item = oper["item"]
            self.live.push(self.env.model(item[0]), item[1], **item[2])
            return None
        if kind == "leval":
            return self.live.eval(args["t"], args["x"], oper["ict"], oper["oct"], **args["opt"])
        if kind == "lval":
            return [float(v) for v in self.live.validity]
        if kind == "lpar":
            return sorted(self.live.parameters)
        return ops.run(self.env, oper, args)

    def body(self, tid, items):
        def _body(trace_on):
            for num, oper in enumerate(items):
                rec = {"tid": tid, "num": num, "op": oper, "res": None, "out": ["none"]}
                args = self.args_of(oper)
                self.seq += 1
                rec["inv"] = self.seq
                self.history.append(rec)
                try:
                    trace_on()
                    value = self.perform(oper, args)
                except S.Killed:
                    rec["out"] = ["err", "Killed"]
                except Exception as exc:
                    rec["out"] = ["err", ops.error_kind(exc)]
                    exc = None
                else:
                    rec["raw"] = value
                self.seq += 1
                rec["res"] = self.seq
        return _body

    def count(self):
        """ Steps of the threads executed one after the other. """
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                sched, res = self.simulate(["script", []], None)
                os.write(wfd, json.dumps([int(self.sim.osim.lib.sim_sched_steps()), res]).encode())
            finally:
                os._exit(0)
        os.close(wfd)
        data = os.read(rfd, 1000)
        os.close(rfd)
        os.waitpid(pid, 0)
        return json.loads(data)[0] if data else 100

    def simulate(self, plan, kill):
        bodies = [self.body(tid, items) for tid, items in enumerate(self.sc["threads"])]
        return S.simulate(self.sim.osim, self.roots, bodies, plan, kill, timeout=60.0)


def run(sc, sim):
    this = Run(sc, sim)
    this.setup()
    saved = None
    if sc["args"]:
        for items in sc["threads"]:
            for oper in items:
                this.args_of(oper)
        saved = common.snapshot(this.shared)
    plan = sc["plan"]
    kill = {int(key): value for key, value in sc.get("kill", {}).items()}
    if plan[0] == "pre":
        total = this.count()
        plan = ["script", [[1 + int(frac*total), tid] for frac, tid in plan[1]]]
    fds = osmod.fds()
    sched, res = this.simulate(plan, kill)
    lib = sim.osim.lib
    log = sim.osim.sched_log()
    steps = int(lib.sim_sched_steps())
    sim.count("steps", steps)
    sim.count("calls", len(this.history))
    if res == "stalled":
        sim.count("inconclusive")
        return
    sim.count("fault:preemption", max(0, len(log) - len(sc["threads"])))
    sim.count("native_yields", int(lib.sim_sched_cyields()))
    sim.count("fault:lock-timeout", sched.timeouts)
    sim.count("fault:killed-call", len(sched.killed))
    for pair in sched.pairs:
        sim.sig(str(pair))
    if sched.pairs:
        sim.count("nontrivial")
    if res == "deadlock":
        sim.fail("deadlock", f"all threads wait for each other: {json.dumps(sc)[:1500]}")
    for rec in this.history:
        oper = rec["op"]
        if "raw" in rec:
            rec["out"] = ["ok", ops.plain(rec.pop("raw"))]
        where = f"call {rec['num']} of thread {rec['tid']}: {json.dumps(oper)[:900]}"
        if rec["out"] == ["err", "Killed"]:
            if rec["tid"] not in sched.killed:
                sim.fail("killed", f"unexpected exception in {where}")
            continue
        if oper["op"] in LIVE:
            continue
        want = sim.expected(oper)
        dif = diff(rec["out"], want, angles=ops.op_angles(oper))
        if dif:
            sim.fail("result", f"{dif} in {where}")
        if oper.get("bad") or want[0] == "err":
            sim.count("fault:failed-call")
    killed = [rec for rec in this.history if rec["out"] == ["err", "Killed"]]
    if sched.killed and not killed and res == "ok":
        sim.fail("swallowed", f"the exception does not reach the caller, thread {sched.killed}")
    if res == "ok":
        check_live(this, sim)
    if saved is not None and common.snapshot(this.shared) != saved:
        sim.fail("args", f"arguments changed: {json.dumps(sc)[:1500]}")
    if not killed:
        import gc
        gc.collect()
    now = osmod.fds()
    extra = {fd: name for fd, name in now.items() if fd not in fds and "/w" in name}
    if extra and not killed and not any(oper.get("bad") or "missing" in json.dumps(oper) or "junk" in json.dumps(oper) or "cut" in json.dumps(oper)
                                        or "empty" in json.dumps(oper) for items in sc["threads"] for oper in items):
        sim.fail("fds", f"files left open {extra}: {json.dumps(sc)[:1200]}")
    if sim.viol and plan[0] != "script":
        sim.final = {**sc, "plan": ["script", log]}
    elif sim.viol and sc["plan"][0] == "pre":
        sim.final = {**sc, "plan": plan}


def check_live(this, sim):
    """ Linearizability of the composed model. """
    pushes = [rec for rec in this.history if rec["op"]["op"] == "push"]
    reads = [rec for rec in this.history if rec["op"]["op"] in ("leval", "lval", "lpar") and rec["out"] != ["err", "Killed"]]
    if not pushes and not reads:
        return
    for rec in pushes:
        if rec["out"][0] == "err" and rec["out"][1] != "Killed":
            sim.fail("push", f"{rec['out']} in {json.dumps(rec['op'])[:800]}")
            return
    last = max(rec["res"] for rec in this.history) + 1
    # the final state is read as well
    model = this.live
    for oper in ({"op": "lval"}, {"op": "lpar"},
                 {"op": "leval", "t": {"k": "mjd", "s": 1, "sh": []}, "x": {"k": "c1", "s": 1, "sh": []}, "ict": 1, "oct": 1},
                 {"op": "leval", "t": {"k": "mjd", "s": 2, "sh": [], "lo": 0, "hi": 2000}, "x": {"k": "c1", "s": 2, "sh": []}, "ict": 0, "oct": 2}):
        reads.append({"op": oper, "inv": last, "res": last + 1, "tid": "main", "num": 0,
                      "out": ops.outcome(this.perform, oper, this._args(oper))})
    cache = {}

    def _reference(oper, subset):
        key = json.dumps(oper, sort_keys=True), subset
        if key not in cache:
            this.live = ops.em().ComposedGeomagneticModel()
            for idx in subset:
                item = pushes[idx]["op"]["item"]
                this.live.push(this.env.model(item[0]), item[1], **item[2])
            cache[key] = ops.outcome(this.perform, oper, this._args(oper))
            this.live = model
        return cache[key]

    def _closed(subset):
        """ A model pushed earlier is seen whenever a later one is. """
        return all(idx in subset or pushes[idx]["out"][0] == "err" or not any(pushes[idx]["res"] < pushes[j]["inv"] for j in subset)
                   for idx in range(len(pushes)))

    options = []
    for rec in reads:
        oper = rec["op"]
        must = [i for i, push in enumerate(pushes) if push["res"] < rec["inv"] and push["out"][0] != "err"]
        may = [i for i, push in enumerate(pushes) if i not in must and push["inv"] < rec["res"]]
        mine = []
        dif = None
        for size in range(len(may) + 1):
            for more in itertools.combinations(may, size):
                subset = tuple(sorted((*must, *more)))
                if not _closed(subset):
                    continue
                dif = diff(rec["out"], _reference(oper, subset), 1e-9, 1e-9)
                if not dif:
                    mine.append(frozenset(subset))
        if not mine:
            sim.fail("live", f"not the model of any moment of the call ({dif}): thread {rec['tid']} {json.dumps(oper)[:700]}, "
                             f"{len(must)} models added before, {len(may)} meanwhile or killed, of {json.dumps([p['op']['item'] for p in pushes])[:900]}")
            return
        options.append(mine)
        if len(may):
            sim.count("concurrent_reads")

    def _fits(num, chosen):
        if num == len(reads):
            return True
        for subset in options[num]:
            good = True
            for other, mine in zip(reads, chosen):
                if not (mine <= subset or subset <= mine):
                    good = False
                elif other["res"] < reads[num]["inv"] and not mine <= subset:
                    good = False
                elif other["inv"] > reads[num]["res"] and not subset <= mine:
                    good = False
                if not good:
                    break
            if good and _fits(num + 1, [*chosen, subset]):
                return True
        return False
    if not _fits(0, []):
        sim.fail("live-order", f"the evaluations do not follow one history of the model: {json.dumps(this.sc)[:1500]}")
