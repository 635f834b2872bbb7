"""C14: models survive being copied, serialized and forked.

Histories of model objects which are used, extended, copied, serialized (also
to other processes), inherited by forked processes (also forked in the middle
of a call), and discarded. Every result is compared with the one of a model of
the same construction history in a fresh process.
"""
import copy
import gc
import io
import json
import os
import pickle
import signal
import subprocess
import sys
from sim import gen as G, ops
from sim.simrun import diff
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2200}, "thorough": {"runs": 40000, "wall": 3000}}
WALL_LIMIT = 60
RULE = ("A case is a history of 6-20 events (creation, use, extension, copy, serialization, fork, discard) on 1-8 model objects; "
        "non-trivial if a copied, restored or inherited model gave a result which was compared.")
STATES = ("distinct tuples (event, kind of the model, way of copying of the object and of its origin, process, extended after the copy, "
          "in a handler inside of a call)")
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + [
    "a shallow copy of a composed model shares its component models with the original (as the shallow copy does)",
    "a model copied or inherited in the middle of being extended has or has not the added component",
]
HERE, HELPER, SPAWN = 0, 1, 2
LEAVES = ("shc", "shc", "shcc", "igrf", "wmm", "emm", "coef", "coef", "ccomp", "ccomb", "dip", "mioi", "mioe", "mioc", "mma", "stub", "c")


# ------------------------------------------------- histories, symbolically

class Node:
    """ Construction history of an object. """
    def __init__(self, leaf=None):
        self.leaf = leaf
        self.items = []
        self.way = "orig"
        self.pushed = 0

    def recipe(self):
        if self.leaf is not None:
            return self.leaf
        return {"m": "composed", "items": [[node.recipe(), scale, params] for node, scale, params in self.items]}

    def contains(self, node):
        return self is node or any(item.contains(node) for item, _, _ in self.items)

    def size(self):
        return 1 + sum(item.size() for item, _, _ in self.items)


class State:
    """ Objects: number -> (process, node) """
    def __init__(self):
        self.objs = {}

    def get(self, num, loc=None):
        item = self.objs.get(num)
        if item is None or (loc is not None and item[0] != loc):
            return None
        return item[1]

    def apply(self, event):
        """ Perform the event, returns false if it is not possible. """
        what = event["e"]
        if what == "new":
            self.objs[event["n"]] = (HERE, Node(event["r"]))
            return True
        if what == "copy":
            if event["n"] not in self.objs:
                return False
            loc, node = self.objs[event["n"]]
            if event["how"] == "copy":
                new = copy.copy(node)
                new.items = list(node.items)
            else:
                new = copy.deepcopy(node)
            new.way = (event["how"] if isinstance(event["how"], str) else "pickle") + "<" + node.way[:12]
            new.pushed = 0
            self.objs[event["to"]] = (event.get("loc", loc) if event["how"] not in ("copy", "deepcopy") else loc, new)
            return True
        if what == "pair":      # two objects serialized together
            if any(num not in self.objs for num in event["n"]):
                return False
            (loc1, node1), (loc2, node2) = [self.objs[num] for num in event["n"]]
            if loc1 != loc2:
                return False
            for num, new in zip(event["to"], copy.deepcopy([node1, node2])):
                new.way = "pair<" + new.way[:12]
                self.objs[num] = (loc1, new)
            return True
        if what == "push":
            if event["n"] not in self.objs or event["c"] not in self.objs:
                return False
            (loc1, node), (loc2, item) = self.objs[event["n"]], self.objs[event["c"]]
            if loc1 != loc2 or node.leaf is not None or item.contains(node) or (item.leaf is not None and "m" not in item.leaf):
                return False
            node.items = [*node.items, (item, event.get("scale", 1.0), event.get("params", {}))]
            node.pushed = 1
            return True
        if what == "drop":
            return self.objs.pop(event["n"], None) is not None
        if what == "use":
            return event["n"] in self.objs
        return True


def full(event, node):
    """ Operation of the event on a model of the given history. """
    rec = node.recipe()
    if "m" not in rec:
        return {"op": "ceval", "c": rec, **event["co"]}
    if event.get("info"):
        return {"op": "info", "m": rec}
    return {"op": "eval", "m": rec, **event["o"]}


def planned(events, state, limit=None, inner=False, alts=()):
    """ Sequence of (event, alternative operations, where, plan of the nested events). """
    out = []
    for event in events:
        what = event["e"]
        if limit is not None and what in ("use", "push", "copy", "drop", "pair"):
            nums = [event[key] for key in ("n", "c") if key in event]
            nums = nums[0] if what == "pair" else nums
            if any(state.objs.get(num, (limit,))[0] != limit for num in nums):
                continue
        if inner and what in ("push", "drop") and event["n"] < 1000:
            continue
        before = copy.deepcopy(state) if event.get("sig") or what == "fork" else None
        if not state.apply(event):
            continue
        for alt in alts:
            alt.apply(event)
        if what == "use":
            cand = [state, *alts]
            opers = []
            for item in cand:
                if event["n"] in item.objs:
                    oper = full(event, item.objs[event["n"]][1])
                    if oper not in opers:
                        opers.append(oper)
        elif what == "pw":
            opers = [event["o"]]
        else:
            opers = []
        nested = None
        if what == "fork":
            nested = planned(event["ops"], copy.deepcopy(state), HERE, False, [copy.deepcopy(alt) for alt in alts])
        elif event.get("sig"):
            nested = planned(event["sig"]["ops"], before, HERE, not event["sig"]["fork"], [copy.deepcopy(state)])
        loc = state.objs[event["n"]][0] if what in ("use", "push") else event.get("loc", HERE)
        label = None
        if what == "use":
            node = state.objs[event["n"]][1]
            label = [(node.leaf or {"m": "composed"}).get("m", "coefficients"), node.way, node.pushed, loc]
        out.append((event, opers, loc, nested, label))
    return out


def _opers(plan):
    for _, opers, _, nested, _ in plan:
        yield from opers
        if nested:
            yield from _opers(nested)


def oracle_ops(sc):
    return list(_opers(planned(sc["ops"], State())))


# ---------------------------------------------------------------- generator

def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.01, maxn=8, apex_big=0.05)
    state = State()
    events = []
    counter = [0]

    def new_id():
        counter[0] += 1
        return counter[0]

    def emit(out, event, local):
        if local.apply(event):
            out.append(event)
            return True
        return False

    def leaf():
        kind = g.pick(*LEAVES)
        if kind == "c":
            return g.cevalop()["c"]
        return g._recipe(kind, 0)

    def use(local, num):
        rec = local.get(num).recipe()
        event = {"e": "use", "n": num}
        if "m" not in rec:
            lo, hi = g.recipe_time(rec)
            event["co"] = {"t": g.arr("mjd", g.shape(0.02), lo=lo, hi=hi), "opt": {"max_degree": 2} if g.r() < 0.3 else {}}
        elif g.r() < 0.2:
            event["info"] = 1
        else:
            oper = g.evalop(rec)
            event["o"] = {key: value for key, value in oper.items() if key not in ("op", "m")}
        return event

    def step(out, local, depth, base=0):
        nums = [num for num, (loc, _) in local.objs.items() if depth == 0 or loc == HERE]
        x = g.r()
        if not nums or x < 0.12 and len(nums) < 5:
            num = base + new_id()
            rec = leaf() if g.r() < 0.6 else None
            event = {"e": "new", "n": num, "r": rec}
            emit(out, event, local)
            if rec is None:
                for _ in range(rng.randint(1, 2)):
                    step_push(out, local, num, nums, base)
            return
        num = rng.choice(nums)
        if x < 0.45:
            event = use(local, num)
            if depth == 0 and local.objs[num][0] == HERE and not event.get("info") and g.r() < 0.15:
                event["sig"] = handler(local, base)
            emit(out, event, local)
        elif x < 0.68:
            how = g.pick("copy", "copy", "deepcopy", "deepcopy", *range(6), 4, 5)
            event = {"e": "copy", "n": num, "to": base + new_id(), "how": how}
            if depth == 0 and not isinstance(how, str):
                event["loc"] = g.pick(HERE, HERE, HELPER, HELPER, SPAWN if g.r() < 0.1 else HERE)
            if emit(out, event, local):
                if g.r() < 0.6:
                    out.append(use(local, event["to"]))
        elif x < 0.72:
            other = rng.choice(nums)
            emit(out, {"e": "pair", "n": [num, other], "to": [base + new_id(), base + new_id()], "how": g.pick("deepcopy", 2, 4, 5)}, local)
        elif x < 0.84:
            comp = [n for n in nums if local.get(n).leaf is None]
            if comp:
                step_push(out, local, rng.choice(comp), nums, base, depth == 0)
        elif x < 0.89:
            emit(out, {"e": "drop", "n": num}, local)
        elif x < 0.92:
            emit(out, {"e": "dumpfail", "n": num, "after": int(10**(4*g.r())), "how": rng.randrange(6)}, local)
        elif x < 0.95:
            emit(out, {"e": "pw", "o": g.pwop("qd" if g.r() < 0.6 else None, heavy=0.6), "loc": HELPER if g.r() < 0.3 and depth == 0 else HERE}, local)
        elif depth < 2:
            sub, inner = [], copy.deepcopy(local)
            for _ in range(rng.randint(1, 5)):
                step(sub, inner, depth + 1, base)
            event = {"e": "fork", "ops": sub, "first": int(g.r() < 0.5)}
            if g.r() < 0.2:
                event["kill"] = rng.randint(0, len(sub))
            emit(out, event, local)

    def step_push(out, local, num, nums, base, sig=False):
        nums = [n for n in nums if n in local.objs]
        cand = [n for n in nums if not local.get(n).contains(local.get(num)) and "m" in local.get(n).recipe()
                and local.get(n).size() < 6 and local.objs[n][0] == local.objs[num][0]]
        if (not cand or g.r() < 0.4) and local.objs[num][0] == HERE:
            other = base + new_id()
            rec = g._recipe(g.pick(*[k for k in LEAVES if k != "c"]), 0)
            emit(out, {"e": "new", "n": other, "r": rec}, local)
        elif cand:
            other = rng.choice(cand)
        else:
            return
        rec = local.get(other).recipe()
        params = {}
        if rec["m"] not in ("stub", "composed") and g.r() < 0.3:
            params["max_degree"] = rng.randint(1, 3)
        if rec["m"] in ("mioi", "mioe") and g.r() < 0.6:
            params["f107"] = round(rng.uniform(60, 150), 1)
        event = {"e": "push", "n": num, "c": other, "scale": g.pick(1.0, 1.0, -1.0, 0.5, [1.0, -2.0, 0.25]), "params": params}
        if local.get(num).size() > 8:
            return
        if sig and local.objs[num][0] == HERE and g.r() < 0.4:
            event["sig"] = handler(local, base)
        emit(out, event, local)

    def handler(local, base):
        """ Events in a signal handler. """
        sub, inner = [], copy.deepcopy(local)
        for _ in range(rng.randint(1, 3)):
            step(sub, inner, 2, 1000)
        return {"at": round(g.r(), 4), "fork": int(g.r() < 0.5), "ops": sub}

    while len(events) < rng.randint(6, 14 if tier == "quick" else 24):
        step(events, state, 0)
    for num in list(state.objs)[-4:]:
        if state.objs[num][0] != SPAWN:
            events.append(use(state, num))
    return {"ops": events}


def shrinks(sc):
    for idx, event in enumerate(sc["ops"]):
        for key in ("sig", "kill"):
            if key in event:
                yield {**sc, "ops": [*sc["ops"][:idx], {k: v for k, v in event.items() if k != key}, *sc["ops"][idx + 1:]]}
        if event["e"] == "fork":
            for sub in range(len(event["ops"])):
                yield {**sc, "ops": [*sc["ops"][:idx], {**event, "ops": event["ops"][:sub] + event["ops"][sub + 1:]}, *sc["ops"][idx + 1:]]}
        if "sig" in event:
            for sub in range(len(event["sig"]["ops"])):
                yield {**sc, "ops": [*sc["ops"][:idx], {**event, "sig": {**event["sig"], "ops": event["sig"]["ops"][:sub] + event["sig"]["ops"][sub + 1:]}}, *sc["ops"][idx + 1:]]}


# ---------------------------------------------------------------- execution

class FullDisk(io.RawIOBase):
    """ Output failing after the given number of bytes. """
    def __init__(self, left):
        self.left = left

    def writable(self):
        return True

    def write(self, data):
        size = memoryview(data).nbytes
        self.left -= size
        if self.left < 0:
            raise OSError(28, "No space left on device")
        return size


class SharedWorld(ops.World):
    """ Files replaced by any of the processes. """
    def put(self, slot, token, mode="rename"):
        note = self.path(slot) + ".token"
        try:
            with open(note, encoding="ascii") as file_in:
                known, stamp = file_in.read().split("\n")
                self.state[slot], self.stamp = known, max(self.stamp, int(stamp))
        except FileNotFoundError:
            self.state.pop(slot, None)
        path = super().put(slot, token, mode)
        with open(note, "w", encoding="ascii") as file_out:
            file_out.write(f"{token}\n{self.stamp}")
        return path


class Holder:
    """ Objects of one process. """
    def __init__(self, work):
        self.objs = {}
        self.world = SharedWorld(work)

    def do(self, event, oper=None):
        """ Perform the event, returns the outcome of an operation. """
        what = event["e"]
        if what == "new":
            self.objs[event["n"]] = self.create(event["r"])
        elif what == "copy":
            self.objs[event["to"]] = duplicate(self.objs[event["n"]], event["how"])
        elif what == "pair":
            for num, new in zip(event["to"], duplicate([self.objs[num] for num in event["n"]], event["how"])):
                self.objs[num] = new
        elif what == "push":
            self.objs[event["n"]].push(self.objs[event["c"]], event.get("scale", 1.0), **event.get("params", {}))
        elif what == "drop":
            del self.objs[event["n"]]
            gc.collect()
        elif what == "dumps":
            return pickle.dumps(self.objs[event["n"]], event["how"])
        elif what == "loads":
            self.objs[event["to"]] = pickle.loads(event["data"])
        elif what == "dumpfail":
            try:
                pickle.dump(self.objs[event["n"]], FullDisk(event["after"]), event["how"])
            except OSError:
                return "failed"
        elif what in ("use", "pw"):
            env = ops.Env(self.world)
            if what == "use":
                key = ("coef:" if oper["op"] == "ceval" else "") + json.dumps(oper["c" if oper["op"] == "ceval" else "m"], sort_keys=True)
                env.models[key] = self.objs[event["n"]]
            return ops.outcome(ops.run, env, oper)
        return None

    def create(self, recipe):
        env = ops.Env(self.world)
        if recipe is None:
            return ops.em().ComposedGeomagneticModel()
        if "m" not in recipe:
            return ops.build_coef(env, recipe)
        return ops.build_model(env, recipe)


def duplicate(obj, how):
    if how == "copy":
        return copy.copy(obj)
    if how == "deepcopy":
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, how))


def read_msg(fobj):
    size = int.from_bytes(fobj.read(8), "little")
    return pickle.loads(fobj.read(size)) if size else None


def write_msg(fobj, obj):
    data = pickle.dumps(obj)
    fobj.write(len(data).to_bytes(8, "little") + data)
    fobj.flush()


def serve(inp, out, work):
    """ Other process holding objects. """
    holder = Holder(work)
    while True:
        msg = read_msg(inp)
        if msg is None:
            break
        try:
            answer = ("ok", holder.do(*msg))
        except BaseException as exc:
            answer = ("err", f"{type(exc).__name__}: {exc}"[:500])
        write_msg(out, answer)


class Remote:
    """ The other process, seen from this one. """
    def __init__(self, inp, out, pid=None, proc=None):
        self.inp, self.out, self.pid, self.proc = inp, out, pid, proc

    def do(self, *msg):
        write_msg(self.out, msg)
        kind, value = read_msg(self.inp)
        if kind == "err":
            raise RuntimeError(value)
        return value

    def close(self):
        self.out.close()
        self.inp.close()
        if self.pid:
            os.waitpid(self.pid, 0)
        if self.proc:
            self.proc.wait()


class Runner:
    def __init__(self, sim):
        self.sim = sim
        self.pkg = os.path.join(sim.conf["pkg"], "eoxmagmod") + "/"
        self.here = Holder(sim.work)
        self.remote = {}
        self.pending = []
        self.plan = None
        self.fired = None

    def process(self, loc):
        if loc == HERE:
            return self.here
        if loc == SPAWN and SPAWN not in self.remote:
            conf = {"work": self.sim.work, "conf": {k: self.sim.conf[k] for k in ("pkg", "cdf")}}
            proc = subprocess.Popen([sys.executable, "-m", "checks.c14", json.dumps(conf)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                    env={**os.environ, "PYTHONHASHSEED": "123"})
            self.remote[SPAWN] = Remote(proc.stdout, proc.stdin, proc=proc)
            self.sim.count("fault:new-process")
        return self.remote[loc]

    def helper(self):
        """ Process forked when nothing has been done yet. """
        rfd1, wfd1 = os.pipe()
        rfd2, wfd2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(wfd1)
                os.close(rfd2)
                serve(os.fdopen(rfd1, "rb"), os.fdopen(wfd2, "wb"), self.sim.work)
            finally:
                os._exit(0)
        os.close(rfd1)
        os.close(wfd2)
        self.remote[HELPER] = Remote(os.fdopen(rfd2, "rb"), os.fdopen(wfd1, "wb"), pid=pid)

    # -- outcome of a plan: list of [index path, outcome]
    def execute(self, plan, out, path=(), kill=None, skip_sig=False):
        for idx, (event, opers, loc, nested, _) in enumerate(plan):
            if kill is not None and idx >= kill:
                return
            here = (*path, idx)
            what = event["e"]
            try:
                if what == "fork":
                    self.fork(plan[idx], out, here)
                elif event.get("sig") and not skip_sig:
                    self.interrupted(event, opers, nested, out, here)
                elif what == "copy" and not isinstance(event["how"], str):
                    src, dst = self.location(event), event.get("loc", None)
                    dst = src if dst is None else dst
                    self.sim.count("fault:pickle" + ("" if src == dst == HERE else "-moved"))
                    data = self.process(src).do({"e": "dumps", "n": event["n"], "how": event["how"]})
                    self.process(dst).do({"e": "loads", "to": event["to"], "data": data})
                    self.where[event["to"]] = dst
                else:
                    if what in ("copy", "pair", "push", "drop", "use", "dumpfail"):
                        loc = self.location(event)
                    oper = opers[0] if opers else None
                    res = self.process(loc).do(event, oper)
                    if what in ("use", "pw"):
                        out.append([here, res])
                    elif what == "new":
                        self.where[event["n"]] = HERE
                    elif what == "copy":
                        self.where[event["to"]] = loc
                        self.sim.count("fault:" + event["how"])
                    elif what == "pair":
                        for num in event["to"]:
                            self.where[num] = loc
                    elif what == "dumpfail" and res:
                        self.sim.count("fault:full-disk")
            except Exception as exc:
                out.append([here, ["raised", f"{type(exc).__name__}: {exc}"[:400]]])
                return

    def location(self, event):
        num = event["n"]
        return self.where[num[0] if isinstance(num, list) else num]

    # -- forked process
    def fork(self, item, out, here, go=None):
        event, _, _, nested, _ = item
        rfd, wfd = os.pipe()
        grfd, gwfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                os.close(gwfd)
                if not event.get("first", 1):
                    os.read(grfd, 1)        # the parent goes on first
                self.pending = []
                res = []
                self.execute(nested, res, here, event.get("kill"))
                self.finish(res)
                with os.fdopen(wfd, "wb") as fobj:
                    fobj.write(pickle.dumps([res, self.sim.stats]))
                if "kill" in event:
                    os.kill(os.getpid(), signal.SIGKILL)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        os.close(grfd)
        self.sim.count("fault:fork")
        if "kill" in event:
            self.sim.count("fault:child-killed")
        if event.get("first", 1):
            os.close(gwfd)
            self.collect(pid, rfd, out, here)
        else:
            self.pending.append((pid, rfd, gwfd, here))

    def collect(self, pid, rfd, out, here):
        with os.fdopen(rfd, "rb") as fobj:
            data = fobj.read()
        _, status = os.waitpid(pid, 0)
        if data:
            res, _ = pickle.loads(data)
            out.extend(res)
        else:
            out.append([here, ["raised", f"forked process ended with status {status}"]])

    def finish(self, out):
        for pid, rfd, gwfd, here in self.pending:
            os.write(gwfd, b"!")
            os.close(gwfd)
            self.collect(pid, rfd, out, here)
        self.pending = []

    # -- calls interrupted by a handler
    def interrupted(self, event, opers, nested, out, here):
        total = self.instructions(event, opers)
        sig = event["sig"]
        oper = opers[0] if opers else None
        self.plan = (event, nested, out, here)
        self.fired = None
        if total:
            self.sim.osim.sig_arm(self.pkg, signal.SIGALRM, 1 + int(sig["at"]*total) % total)
        try:
            res = self.here.do(event, oper)
        finally:
            self.sim.osim.sig_off()
            self.plan = None
        if event["e"] == "use":
            out.append([here, res])

    def instructions(self, event, opers):
        """ Number of the instructions of the call, counted in a forked process. """
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                self.sim.osim.sig_arm(self.pkg, signal.SIGALRM, -1)
                self.here.do(event, opers[0] if opers else None)
                total, _ = self.sim.osim.sig_off()
                os.write(wfd, str(total).encode())
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as fobj:
            data = fobj.read()
        os.waitpid(pid, 0)
        return int(data or 0)

    def handler(self, signum, frame):
        if self.plan is None:
            return
        event, nested, out, here = self.plan
        self.plan = None
        self.fired = True
        self.sim.count("fault:in-call-" + ("fork" if event["sig"]["fork"] else "copy"))
        if event["sig"]["fork"]:
            self.fork(({"first": 1}, None, None, nested, None), out, (*here, "sig"))
        else:
            keep_objs, keep_where = dict(self.here.objs), dict(self.where)
            self.execute(nested, out, (*here, "sig"))
            self.here.objs, self.where = keep_objs, keep_where


def find(plan, path):
    item = None
    for key in path:
        if key == "sig":
            plan = item[3]
            continue
        item = plan[key]
        plan = item[3]
    return item


def run(sc, sim):
    plan = planned(sc["ops"], State())
    runner = Runner(sim)
    runner.where = {}
    runner.helper()
    signal.signal(signal.SIGALRM, runner.handler)
    out = []
    runner.execute(plan, out)
    runner.finish(out)
    for remote in runner.remote.values():
        remote.close()
    compared = 0
    for path, got in out:
        sim.at(path[0])
        item = find(plan, path)
        event, opers, _, _, label = item
        sim.count("calls")
        sim.count("steps")
        where = f"at {list(path)} {json.dumps(event)[:700]}"
        if got[0] == "raised":
            sim.fail("raised", f"{got[1]} {where}", path[0])
            continue
        difs = []
        for oper in opers:
            dif = diff(got, sim.expected(oper), angles=ops.op_angles(oper))
            if not dif:
                break
            difs.append(dif)
        else:
            sim.fail("result", f"{difs} of {label} {where}", path[0])
            continue
        if label:
            sim.sig(str([label, "sig" in path, len(path), "info" in event]))
            if label[1] != "orig" or len(path) > 1:
                compared += 1
    if compared:
        sim.count("nontrivial")


def spawned():
    conf = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from sim import contents
    contents.setup(conf["conf"]["pkg"], conf["conf"].get("cdf"))
    serve(os.fdopen(0, "rb"), out, conf["work"])


if __name__ == "__main__":
    spawned()
