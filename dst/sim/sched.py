"""Simulated threads: one of them runs at a time and every switch is decided by
the seeded scheduler of simos.c.

A thread can be switched where the interpreter or the operating system may do
it: at the beginning of a function or of a line, after a call returned and at
the end of a loop pass of the package's and of the CDF library's Python code,
at the entry of any native function executed without the interpreter lock, and
when a lock is taken or released.
"""
import dis
import os
import sys
import threading
import numpy as np
from . import locks

_POINTS = {}


def _offsets(code):
    """ Instructions following a call or a backward jump. """
    out = set()
    after = False
    for ins in dis.get_instructions(code):
        if after and ins.opname != "CACHE":
            out.add(ins.offset)
            after = False
        if ins.opname.startswith("CALL") or ins.opname in ("JUMP_BACKWARD", "FOR_ITER", "BEFORE_WITH"):
            after = True
    return frozenset(out)


class Killed(BaseException):
    """ Exception which ends the call of a simulated thread. """


class Sched:
    """ The scheduler as seen by the simulated locks, and the tracing. """

    def __init__(self, osim, roots, limit=3_000_000):
        self.lib = osim.lib
        self.osim = osim
        self.roots = tuple(roots)
        self.timeouts = 0
        self.deadlocks = 0
        self.files = {}
        self.pairs = {}
        self.last = None
        self.kill = {}          # thread -> remaining yield points to the exception
        self.killed = {}
        self.points = 0
        self.limit = limit
        self.no_opcodes = False

    # interface of the locks
    def me(self):
        return self.lib.sim_sched_me()

    def point(self):
        self.lib.sim_sched_yield()

    def block(self):
        res = self.lib.sim_sched_block()
        if res:
            self.deadlocks += 1
        return res

    def unblock(self, tid):
        self.lib.sim_sched_unblock(tid)

    # tracing
    def traced(self, code):
        name = code.co_filename
        hit = self.files.get(name)
        if hit is None:
            hit = self.files[name] = name.startswith(self.roots)
        return hit and code.co_name != "<module>"

    def tracer(self, tid):
        yield_ = self.lib.sim_sched_yield

        def _switch(frame, entry=False):
            self.points += 1
            here = (frame.f_code.co_name, frame.f_lineno)
            self.last = (tid, here)
            yield_()
            last = self.last
            if last[0] != tid:
                self.pairs[(last[1], here)] = 1
            left = self.kill.get(tid)
            if left is not None:
                left -= 1
                # delivered at starts of functions as the interpreter does it
                if left <= 0 and entry and self.pkg_frame(frame) and frame.f_code.co_name not in ("__del__", "__exit__"):
                    del self.kill[tid]
                    self.killed[tid] = here
                    raise Killed("injected")
                self.kill[tid] = left

        def _local(frame, event, arg):
            if event == "line":
                if self.points < self.limit:
                    _switch(frame)
            elif event == "opcode":
                code = frame.f_code
                offsets = _POINTS.get(code)
                if offsets is None:
                    offsets = _POINTS[code] = _offsets(code)
                if frame.f_lasti in offsets and self.points < self.limit:
                    _switch(frame)
            return _local

        def _trace(frame, event, arg):
            if event != "call" or not self.traced(frame.f_code):
                return None
            back = frame.f_back
            while back is not None:     # modules being imported are locked by the interpreter
                if back.f_code.co_filename.startswith("<frozen importlib"):
                    return None
                back = back.f_back
            frame.f_trace_opcodes = not self.no_opcodes
            if self.points < self.limit:
                _switch(frame, True)
            return _local
        return _trace

    def pkg_frame(self, frame):
        return frame.f_code.co_filename.startswith(self.roots[0])


def simulate(osim, roots, bodies, plan, kill=None, timeout=40.0):
    """ Run the bodies as simulated threads. A body is a function of the
    function which switches the tracing on. Returns the scheduler and "ok",
    "deadlock" or "stalled".
    """
    sched = Sched(osim, roots)
    sched.kill = dict(kill or {})
    # CPython 3.12 may crash if a tracing function of instructions raises
    sched.no_opcodes = bool(kill)
    errors = []

    def _thread(tid, body):
        np.seterr(all="ignore")
        osim.lib.sim_sched_enter(tid)
        trace = sched.tracer(tid)
        try:
            body(lambda: sys.settrace(trace))
        except BaseException as exc:    # harness error
            errors.append(exc)
        finally:
            sys.settrace(None)
            osim.lib.sim_sched_exit()

    if plan[0] == "rand":
        osim.sched_init(len(bodies), plan[2], plan[1])
    else:
        osim.sched_init(len(bodies), 0, 0.0, plan[1])
    others = threading.active_count()
    threads = [threading.Thread(target=_thread, args=(tid, body), daemon=True) for tid, body in enumerate(bodies)]
    for thread in threads:
        thread.start()
    locks.SCHED = sched
    try:
        res = osim.lib.sim_sched_run(timeout)
    finally:
        locks.SCHED = None
    if res != 1:
        for thread in threads:
            thread.join(20)
    if errors:
        raise errors[0]
    # a thread which is not simulated may still wake the others
    foreign = threading.active_count() - others - sum(thread.is_alive() for thread in threads)
    return sched, "ok" if res == 0 else ("stalled" if res == 1 or foreign > 0 else "deadlock")
