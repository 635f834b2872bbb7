"""One simulated execution (runs in a forked child)."""
import json
import os
import struct
from . import ops, osim as osmod


class Sim:
    def __init__(self, work, osim, oracles, progress, conf):
        self.work = work
        self.osim = osim
        self.oracles = oracles
        self.progress = progress
        self.conf = conf
        self.viol = []
        self.stats = {}
        self.sigs = []
        self.events = []
        self.last = None
        self.final = None       # scenario replaying the execution, if not the given one
        self.world = ops.World(work)
        self.env = ops.Env(self.world)

    def at(self, idx):
        self.last = idx
        self.progress[:8] = struct.pack("q", idx)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fail(self, kind, detail, at=None):
        self.viol.append({"kind": kind, "detail": str(detail)[:4000], "at": at})

    def sig(self, value):
        """ Register a visited state (for the measure of distinct states). """
        self.sigs.append(value)

    def expected(self, oper):
        return self.oracles[json.dumps(oper, sort_keys=True)]

    def check(self, oper, got, kind="result", at=None, rtol=1e-10, atol=1e-12):
        """ Compare an outcome with the one of a fresh process. """
        want = self.expected(oper)
        dif = diff(got, want, rtol, atol, ops.op_angles(oper))
        if dif:
            self.fail(kind, f"{dif} in {json.dumps(oper)[:1500]}", at)
        return not dif

    def result(self):
        out = {"viol": self.viol, "stats": self.stats, "sigs": self.sigs, "events": self.events}
        if self.final and self.viol:
            out["final"] = self.final
        return out


def diff(got, want, rtol=1e-10, atol=1e-12, angles=False):
    if got[0] != want[0]:
        return f"{short(got)} instead of {short(want)}"
    if got[0] == "err":
        return None if got[1] == want[1] else f"{got[1]} instead of {want[1]}"
    return ops.same(got[1], want[1], rtol, atol, angles)


def short(out):
    text = repr(out[1] if out[0] == "err" else out)
    return f"{out[0]}:{text[:200]}"
