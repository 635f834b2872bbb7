"""C03: interrupted and re-entered calls leave no trace.

A signal is made pending at a seeded byte-code instruction of the package and
the interpreter delivers it as usual; its handler raises an exception, or makes
other calls of the package and returns.
"""
import copy
import gc
import itertools
import json
import os
import pickle
import signal
import sys
import threading
import numpy as np
from sim import gen as G, ops, osim as osmod
from sim.simrun import diff
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2600}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("A case is a history of 4-12 calls and extensions of composed models, about half of them with a signal at a seeded "
        "byte-code instruction of the package (any, or the first or last execution of a place in the code) whose handler raises or "
        "calls the package; non-trivial if a signal was delivered inside of a call and a later call was compared.")
STATES = "distinct tuples (operation, place in the code where the signal was delivered, handler action)"
REAL = common.REAL
STUB = common.STUB + ["the moment at which a signal becomes pending (simos.so), its delivery by the interpreter is real"]
ASSUMPTIONS = common.ASSUME + [
    "signals are delivered where CPython 3.12 delivers them (calls, function starts, backward jumps), in the code of the package and in the library functions called from it",
    "one exception per call; an exception raised while a destructor runs is discarded by the interpreter"]
NAMES = ["A", "B"]


class Injected(Exception):
    """ Exception raised by a time-out handler. """


class InjectedBase(BaseException):
    """ Exception raised by a cancellation. """


EXC = {"kbd": KeyboardInterrupt, "exc": Injected, "base": InjectedBase, "timeout": TimeoutError}


def live_item(g, rng, name):
    rec = g._recipe(g.pick("shc", "igrf", "coef", "coef", "dip", "mioi", "stub", "wmm"), 1)
    if name == "A" and g.r() < 0.2:
        rec = {"m": "live", "n": "B"}
    params = {}
    if rec["m"] not in ("stub", "live") and g.r() < 0.4:
        params[g.pick("max_degree", "min_degree")] = rng.randint(1, 3)
    if rec["m"] == "mioi" and g.r() < 0.5:
        params["f107"] = 100.0
    return [rec, g.pick(1.0, 1.0, -1.0, 0.5), params]


def live_op(g, rng, name=None):
    name = name or rng.choice(NAMES)
    if g.r() < 0.5:
        return {"op": "push", "n": name, "item": live_item(g, rng, name)}
    oper = g.evalop({"m": "stub"}, shape=g.pick([], [2], [3]), opts=False)
    del oper["m"]
    return {**oper, "op": "leval", "n": name, "opt": {"f107": 100.0} if g.r() < 0.5 else {}}


def point(g):
    """ Instruction, often one close to the beginning or the end. """
    frac = g.r()
    x = g.r()
    if x < 0.3:
        frac = 0.5*frac**3
    elif x < 0.45:
        frac = 1 - 0.5*frac**3
    return [g.pick("u", "f", "f", "l"), round(frac, 5)]


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.01, maxn=12, apex_big=0.05)
    items = []
    maxn = 0
    profile = g.r()
    same = []
    if profile > 0.78:      # few calls repeated on one object
        base = g.cevalop() if g.r() < 0.3 else g.evalop(shape=g.pick([], [], [2], [3]))
        same = [base, g.variant(base), g.variant(base)]
    elif profile > 0.73:    # products read by the CDF library
        same = [{"op": "load", "m": g._recipe("mma", 0)} for _ in range(2)]
    while len(items) < (maxn := maxn or rng.randint(3, 8 if tier == "quick" else 12)):
        x = g.r()
        if items and "exc" in items[-1] and g.r() < 0.35:       # the same call again
            items.append({"o": copy.deepcopy(items[-1]["o"])})
            continue
        if same:
            oper = copy.deepcopy(rng.choice(same))
        elif items and x < 0.3:
            oper = copy.deepcopy(rng.choice(items[-3:])["o"])
        elif x < 0.45 or profile < 0.25:
            oper = live_op(g, rng)
        elif x < 0.6:
            oper = {"op": "load", "m": g.recipe(kinds=("shc", "shcc", "igrf", "wmm", "emm", "mioi", "mioe", "mma", "mma"))}
        else:
            oper = g.op(bad=0.06)
        item = {"o": oper}
        x = g.r()
        if x < 0.55:
            item["s"] = {"at": point(g), "do": rng.choice(list(EXC))}
            item["exc"] = 1
        elif x < 0.75:
            inner = []
            for _ in range(rng.randint(1, 2)):
                y = g.r()
                if (oper.get("m") or {}).get("m") == "mma" and oper["op"] == "load" and g.r() < 0.4:
                    inner.append({"op": "load", "m": g._recipe("mma", 0)})  # the same reader called from inside of it
                elif y < 0.25 or (oper["op"] == "leval" and y < 0.6):
                    inner.append(live_op(g, rng))
                elif y < 0.5:
                    inner.append(g.variant(oper) if oper["op"] not in ("push", "leval") else g.op(bad=0.0))
                elif y < 0.6 and oper["op"] not in ("push", "leval"):
                    inner.append(copy.deepcopy(oper))
                else:
                    inner.append(g.op(bad=0.06))
            _rename(inner, [str(ref) for ref in G._walk(oper)])
            item["s"] = {"at": point(g), "do": inner}
        elif x < 0.85:
            item["thr"] = 1
        items.append(item)
    return {"ops": items}


def _rename(inner, outer):
    """ The nested calls must not replace the files of the outer one. """
    for ref in G._walk(inner):
        if isinstance(ref, list) and len(ref) == 2 and all(isinstance(v, str) for v in ref) and ref[0][-4:] in (
                ".txt", ".shc", "igrf", ".cof", "emms", "emmv", ".mio", ".cdf", "df2f") and str(ref) not in outer:
            ref[0] = "n" + ref[0]


def _all(sc):
    for item in sc["ops"]:
        yield item["o"]
        inner = item.get("s", {}).get("do")
        if isinstance(inner, list):
            yield from inner


def oracle_ops(sc):
    return [oper for oper in _all(sc) if oper["op"] not in ("push", "leval")]


def shrinks(sc):
    for idx, item in enumerate(sc["ops"]):
        for key in ("s", "thr"):
            if key in item:
                yield {**sc, "ops": sc["ops"][:idx] + [{k: v for k, v in item.items() if k != key}] + sc["ops"][idx + 1:]}
        do = item.get("s", {}).get("do")
        if isinstance(do, list) and len(do) > 1:
            for pos in range(len(do)):
                yield {**sc, "ops": sc["ops"][:idx] + [{**item, "s": {**item["s"], "do": do[:pos] + do[pos + 1:]}}] + sc["ops"][idx + 1:]}


class Live:
    """ Composed models under extension, and their reference states. """

    def __init__(self, env):
        self.env = env
        self.model = {name: ops.em().ComposedGeomagneticModel() for name in NAMES}
        self.state = {name: [] for name in NAMES}

    def component(self, item):
        rec = item[0]
        return self.model[rec["n"]] if rec["m"] == "live" else self.env.model(rec)

    def push(self, oper):
        item = oper["item"]
        self.model[oper["n"]].push(self.component(item), item[1], **item[2])

    def build(self, state, lasts=None):
        """ Model built anew from the components (the nested extended models of
        the given numbers of components).
        """
        model = ops.em().ComposedGeomagneticModel()
        lasts = iter(lasts or ())
        for item in state:
            rec = item[0]
            comp = self.build(self.state[rec["n"]][:next(lasts, None)]) if rec["m"] == "live" else self.env.model(rec)
            model.push(comp, item[1], **item[2])
        return model

    def moments(self, name, old):
        """ Models which an evaluation may have seen when the models were
        extended in the middle of it, each of them separately.
        """
        state = self.state[name]
        for last in range(len(old[name]), len(state) + 1):
            nested = [item[0]["n"] for item in state[:last] if item[0]["m"] == "live"]
            for lasts in itertools.product(*[range(len(old[n]), len(self.state[n]) + 1) for n in nested]):
                yield self.build(state[:last], lasts)

    def eval(self, model, oper):
        args = ops.build_args(self.env, {**oper, "op": "eval"})
        return model.eval(args["t"], args["x"], oper["ict"], oper["oct"], **args["opt"])

    def view(self, model):
        """ Observable state of a model. """
        out = [ops.outcome(ops.info, model)]
        for time in (1000.0, 4000.25, 7000.0):
            out.append(ops.outcome(model.eval, time, [[10.0, 20.0, 6800.0], [-50.0, 60.0, 7000.0]]))
            out.append(ops.outcome(lambda t=time: model.eval(t, [10.0, 20.0, 6800.0], f107=90.0)))
        return out


def snapshot(obj):
    return pickle.dumps(obj)


class Runner:
    def __init__(self, sc, sim):
        self.sim = sim
        self.env = sim.env
        self.osim = sim.osim
        self.live = Live(sim.env)
        self.pkg = os.path.dirname(ops.em().__file__) + "/"
        self.fired = None
        self.plan = None
        self.inner_viol = []
        signal.signal(signal.SIGALRM, self.handler)

    def perform(self, oper, args):
        if oper["op"] == "push":
            return self.live.push(oper)
        if oper["op"] == "leval":
            return self.live.eval(self.live.model[oper["n"]], oper)
        return ops.run(self.env, oper, args)

    def attempt(self, oper, args):
        try:
            return ["ok", ops.plain(self.perform(oper, args))]
        except (Exception, KeyboardInterrupt, InjectedBase) as exc:  # noqa: B014
            out = ["err", ops.error_kind(exc), isinstance(exc, tuple(EXC.values()))]
            if out[2]:      # files still open when the exception reaches the caller
                self.held = osmod.fds()
            exc = None
            return out

    def count(self, oper, args):
        """ Instructions of the call, found out in a forked process. """
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rfd)
                root = os.path.join(self.sim.work, "count")     # own files
                os.makedirs(root, exist_ok=True)
                self.env.world = ops.World(root)
                self.osim.sig_arm(self.pkg, signal.SIGALRM, -1)
                try:
                    self.perform(oper, args)
                except Exception:
                    pass
                total, _ = self.osim.sig_off()
                os.write(wfd, json.dumps([total, self.osim.sig_sites()[:2500]]).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(wfd)
        data = b""
        while chunk := os.read(rfd, 1 << 16):
            data += chunk
        os.close(rfd)
        os.waitpid(pid, 0)
        return json.loads(data) if data else [0, []]

    def handler(self, signum, frame):
        plan, self.plan = self.plan, None
        if plan is None:
            return
        here = frame
        inside = destructor = False
        place = None
        while here is not None:
            name = here.f_code.co_filename
            if name.startswith(self.pkg):
                inside = True
                place = place or f"{os.path.basename(name)}:{here.f_code.co_name}:{here.f_lineno}"
            if here.f_code.co_name == "__del__":
                destructor = True
            here = here.f_back
        here = None
        if not inside:
            return
        self.fired = (place, destructor)
        if isinstance(plan, str):
            raise EXC[plan]("injected")
        self.nested(plan)

    def nested(self, plan):
        for oper in plan:
            self.sim.count("calls")
            if oper["op"] in ("push", "leval"):
                dif = self.live_step(oper)
            else:
                got = self.attempt(oper, ops.build_args(self.env, oper))[:2]
                dif = diff(got, self.sim.expected(oper), angles=ops.op_angles(oper))
            if dif:
                self.inner_viol.append(f"{dif} in the nested {json.dumps(oper)[:700]}")

    def live_step(self, oper):
        """ Undisturbed extension or evaluation of a live model. """
        args = {}
        name = oper["n"]
        if oper["op"] == "leval":
            want = ops.outcome(lambda: self.live.eval(self.live.build(self.live.state[name]), oper))
            return diff(self.attempt(oper, args)[:2], want)
        state = self.live.state[name] + [oper["item"]]
        got = self.attempt(oper, args)
        if got[0] == "ok":
            self.live.state[name] = state
        return ops.same(self.live.view(self.live.model[name]), self.live.view(self.live.build(self.live.state[name])), 1e-10, 1e-12)

    def step(self, idx, item):
        sim, oper = self.sim, item["o"]
        islive = oper["op"] in ("push", "leval")
        text = json.dumps(oper)[:1200]
        args = ops.build_args(self.env, oper) if not islive else {}
        if oper["op"] == "push":    # the component itself exists in advance
            self.live.component(oper["item"])
        sig = item.get("s")
        if not sig:
            if item.get("thr"):
                box = []
                thread = threading.Thread(target=lambda: box.append(self.plain_step(oper, args, islive)), daemon=True)
                thread.start()
                thread.join(25)
                if not box:
                    sim.fail("blocked", f"a call in another thread does not return: {text}", idx)
                    return
                dif = box[0]
            else:
                dif = self.plain_step(oper, args, islive)
            sim.count("calls")
            if dif:
                sim.fail("later", f"{dif} in {text}", idx)
            elif self.hit:
                self.after += 1
            return
        if islive and oper["op"] == "leval":
            before = ops.outcome(lambda: self.live.eval(self.live.build(self.live.state[oper["n"]]), oper))
        olds = {name: list(state) for name, state in self.live.state.items()}
        old = olds[oper["n"]] if islive else None
        total, sites = self.count(oper, args)
        if not total:
            at = 1
        else:
            mode, frac = sig["at"]
            at = 1 + int(frac*total) if mode == "u" or not sites else sites[min(int(frac*len(sites)), len(sites) - 1)][0 if mode == "f" else 1]
        saved = snapshot(args)
        fds = self.held = osmod.fds()
        self.fired, self.plan, self.inner_viol = None, sig["do"], []
        self.osim.lib.sim_watch((sim.work + "/").encode())
        self.osim.sig_arm(self.pkg, signal.SIGALRM, at)
        try:
            got = self.attempt(oper, args)
        finally:
            self.osim.sig_off()
            self.plan = None
        sim.count("calls")
        sim.count("steps", total)
        fired = self.fired
        where = f"(signal at instruction {at} of {total}, delivered at {fired[0] if fired else None}, handler {str(sig['do'])[:600]}) in {text}"
        if fired:
            self.hit += 1
            sim.count("fault:" + ("raise-" + sig["do"] if isinstance(sig["do"], str) else "nested"))
            sim.sig(str([oper["op"], oper.get("f") or (oper.get("m") or {}).get("m"), fired[0], sig["do"] if isinstance(sig["do"], str) else "call"]))
        for text2 in self.inner_viol:
            sim.fail("nested", f"{text2} {where}", idx)
        raised = bool(fired) and isinstance(sig["do"], str)
        if raised and not fired[1]:
            if got[0] == "ok" or not got[2]:
                sim.fail("swallowed", f"the exception does not reach the caller, the outcome is {got[:2] if got[0] == 'err' else 'ok'} {where}", idx)
        if snapshot(args) != saved:
            sim.fail("args", f"arguments changed {where}", idx)
        if oper["op"] == "push":
            name = oper["n"]
            view = self.live.view(self.live.model[name])
            mine = self.live.state[name]
            added = mine + [oper["item"]]
            options = [old + [oper["item"]], old] if raised else [added if got[0] == "ok" else mine]
            if not raised and fired and isinstance(sig["do"], list):
                # extended in the middle of the call: one of the orders
                inner = [o["item"] for o in sig["do"] if o["op"] == "push" and o["n"] == name]
                if inner and got[0] == "ok":
                    options = [added, old + [oper["item"]] + mine[len(old):]]
            difs = [ops.same(view, self.live.view(self.live.build(option)), 1e-10, 1e-12) for option in options]
            fits = [option for option, dif in zip(options, difs) if not dif]
            if len(fits) == 1:
                self.live.state[name] = fits[0]
            elif fits:      # cannot be told apart (yet)
                if len(options) > 1:
                    self.live = Live(self.env)
            else:
                sim.fail("push", f"neither extended nor as before: {difs} {where}", idx)
        elif not raised:
            if oper["op"] == "leval":
                # as the model stood at one moment of the call
                difs = [diff(got[:2], before)]
                for model in itertools.islice(self.live.moments(oper["n"], olds), 500):
                    if not difs[-1]:
                        break
                    difs.append(diff(got[:2], ops.outcome(lambda m=model: self.live.eval(m, oper))))
                if difs[-1]:
                    sim.fail("result", f"{difs[-1]} {where}", idx)
            else:
                dif = diff(got[:2], sim.expected(oper), angles=ops.op_angles(oper))
                if dif:
                    sim.fail("result", f"{dif} {where}", idx)
        gc.collect()
        now = osmod.fds()
        left = {num: name for num, name in now.items() if fds.get(num) != name}
        if left:
            sim.fail("fds", f"descriptors left open: {left} {where}", idx)
        # (the CDF library closes its files when the library's object is released)
        held = {num: name for num, name in self.held.items() if fds.get(num) != name and ".cdf" not in name and name.startswith(sim.work)}
        if held:
            sim.fail("fds", f"descriptors open when the exception reaches the caller: {held} {where}", idx)
        if sys.gettrace() is not None:
            sim.fail("trace", "harness")

    def plain_step(self, oper, args, islive):
        if islive:
            return self.live_step(oper)
        got = self.attempt(oper, args)[:2]
        return diff(got, self.sim.expected(oper), angles=ops.op_angles(oper))


def run(sc, sim):
    runner = Runner(sc, sim)
    runner.hit = runner.after = 0
    for idx, item in enumerate(sc["ops"]):
        sim.at(idx)
        runner.step(idx, item)
        if sim.viol:
            return
    # the locks of the package are free
    if runner.hit:
        oper = {"op": "load", "m": {"m": "mma", "w": "2c_internal", "files": [["last.cdf", "mma2c"]]}}
        box = []
        thread = threading.Thread(target=lambda: box.append(ops.outcome(ops.run, sim.env, oper)), daemon=True)
        thread.start()
        thread.join(25)
        if not box:
            sim.fail("blocked", "loading of a model in another thread does not return")
        elif box[0][0] != "ok":
            sim.fail("later", f"{box[0]} in {oper}")
    if runner.hit and runner.after:
        sim.count("nontrivial")
