"""Worker of the simulator: a zygote process which has only imported the package.

For every simulated execution a child is forked, i.e., each starts from the very
same fresh process state. The parent collects the outcome, and recognises
crashes, unbounded computing and blocked processes.
"""
import base64
import faulthandler
import gc
import importlib
import io
import json
import mmap
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
import traceback
import warnings


# environments in which the reference may be evaluated
PARTNERS = {
    "a": {"PYTHONHASHSEED": "1", "TZ": "Asia/Kathmandu", "LC_ALL": "C"},
    "b": {"PYTHONHASHSEED": "2", "TZ": "America/St_Johns", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"},
}


BLOCKED_S = 15      # asleep for so many seconds


class Zygote:
    def __init__(self, conf):
        self.conf = conf
        self.base = conf["scratch"]
        os.makedirs(self.base, exist_ok=True)
        self.cache = {}
        self.partners = {}
        self.progress = mmap.mmap(-1, 4096)
        import numpy  # noqa: F401
        try:
            from spacepy import pycdf  # noqa: F401
        except ImportError:
            pass
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")
        np.random.PCG64(1)
        if os.environ.get("DST_LOCKS"):
            from . import locks
            locks.install()
        sys._getframe().f_trace_opcodes = True     # enables the tracing of instructions
        import eoxmagmod
        import eoxmagmod.time_util  # noqa: F401
        if not hasattr(eoxmagmod, "ComposedGeomagneticModel"):
            raise RuntimeError("incomplete package")
        for mod in ("parser_shc", "parser_igrf", "parser_wmm", "parser_emm", "parser_mio"):
            importlib.import_module("eoxmagmod.magnetic_model." + mod)
        from . import contents, osim, ops  # noqa: F401
        contents.setup(conf["pkg"], conf.get("cdf"))
        self.osim = osim.LOADED = osim.OSim(conf["simos"])
        self.osim.add_modules()
        from multiprocessing import resource_tracker  # noqa: F401
        import copy, ctypes  # noqa: F401,E401
        if conf.get("prop"):
            importlib.import_module("checks." + conf["prop"].lower())
        self._start_forker()

    # -- forked execution
    def _start_forker(self):
        """ The forker does nothing but to fork the executing processes, each of
        them starts from the very same state of the memory.
        """
        req_r, self.req_w = os.pipe()
        self.ctl_r, ctl_w = os.pipe()
        self.res_r, res_w = os.pipe()
        os.set_blocking(self.res_r, False)
        gc.collect()
        gc.freeze()
        if os.fork():
            for fdesc in (req_r, ctl_w, res_w):
                os.close(fdesc)
            return
        try:
            for fdesc in (self.req_w, self.ctl_r, self.res_r):
                os.close(fdesc)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            null = os.open("/dev/null", os.O_RDONLY)
            os.dup2(null, 0)
            while os.read(req_r, 1):
                pid = os.fork()
                if pid == 0:
                    self._execute(req_r, ctl_w, res_w)
                os.write(ctl_w, struct.pack("q", pid))
                os.write(ctl_w, struct.pack("q", os.waitpid(pid, 0)[1]))
        finally:
            os._exit(0)

    def _execute(self, req_r, ctl_w, res_w):
        """ Read the job and execute it (in the forked process). """
        code = 99
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.close(ctl_w)
            os.setpgid(0, 0)
            size, = struct.unpack("q", _read(req_r, 8))
            job, work, cpu = pickle.loads(_read(req_r, size))
            os.close(req_r)
            os.environ["CDF_TMP"] = work        # temporary files of the CDF library
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            try:
                value = ("ok", getattr(self, "job_" + job[0])(work, *job[1:]))
            except BaseException:
                value = ("harness", traceback.format_exc())
            data = pickle.dumps(value)
            with os.fdopen(res_w, "wb", closefd=True) as out:
                out.write(struct.pack("q", len(data)) + data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)

    def fork(self, job, cpu, wall):
        """ Execute the job in a forked process: ("ok", value) or a failure. """
        work = os.path.join(self.base, "w")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        self.progress[:8] = struct.pack("q", -1)
        data = _dumps((job, work, cpu))
        try:
            while os.read(self.res_r, 1 << 20):     # left by killed processes
                pass
        except BlockingIOError:
            pass
        os.write(self.req_w, b"x")
        _write(self.req_w, struct.pack("q", len(data)) + data)
        pid, = struct.unpack("q", _read(self.ctl_r, 8))
        chunks, deadline, timeout = [], time.monotonic() + wall, False
        idle = 0
        last = None
        ended = False
        while not ended:
            left = deadline - time.monotonic()
            if left <= 0 or idle >= BLOCKED_S:
                timeout = True
                break
            ready, _, _ = select.select([self.res_r, self.ctl_r], [], [], min(left, 1.0))
            if not ready:
                # nothing runs in any of the processes and threads
                state = _activity(pid)
                idle = idle + 1 if state is not None and state == last else 0
                last = state
            ended = self.ctl_r in ready
            if ready:
                try:
                    while True:
                        chunk = os.read(self.res_r, 1 << 20)
                        if not chunk:
                            raise RuntimeError("the forker has ended")
                        chunks.append(chunk)
                except BlockingIOError:
                    pass
        used = None
        if timeout:
            used = 0.0 if idle >= BLOCKED_S else _cpu_of(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
        status, = struct.unpack("q", _read(self.ctl_r, 8))
        try:  # descendants
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(work, ignore_errors=True)
        where = struct.unpack("q", self.progress[:8])[0]
        if timeout:
            return ("blocked" if used is not None and used < 0.2*wall else "slow", where)
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGXCPU,) or (sig == signal.SIGKILL and False):
                return ("hang", where)
            if sig == signal.SIGKILL:
                return ("killed", where)
            return ("crash", f"{signal.Signals(sig).name}", where)
        data = b"".join(chunks)
        if os.WEXITSTATUS(status) != 0 or len(data) < 8 or len(data) < 8 + struct.unpack("q", data[:8])[0]:
            return ("exit", os.WEXITSTATUS(status), where)
        return pickle.loads(data[8:])

    def job_oracle(self, work, oper):
        from . import ops
        env = ops.Env(ops.World(work))
        return ops.outcome(ops.run, env, oper)

    def job_run(self, work, prop, scenario, oracles):
        from . import simrun
        check = importlib.import_module("checks." + prop.lower())
        sim = simrun.Sim(work, self.osim, oracles, self.progress, self.conf)
        try:
            check.run(scenario, sim)
        except BaseException as exc:
            # a valid call, for which the check expects a result, has failed
            if not sim.viol:
                if isinstance(exc, MemoryError) or not _from_package(exc, self.conf["pkg"]):
                    raise
                sim.fail("raised", "unexpected " + "".join(traceback.format_exception(exc))[-1500:], sim.last)
        return sim.result()

    # -- fresh process reference
    def oracle(self, oper):
        """ Outcome of the operation executed alone in a fresh process. """
        key = json.dumps(oper, sort_keys=True)
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        res = self.fork(("oracle", oper), 60, 150)
        if res[0] == "ok":
            res = res[1]
        elif res[0] == "harness":
            raise RuntimeError("oracle failed:\n" + res[1])
        elif res[0] in ("killed", "slow"):
            raise RuntimeError(f"oracle {res[0]}")
        else:
            res = ["dead", list(res)]
        if len(self.cache) > 20000:
            self.cache.clear()
        self.cache[key] = res
        return res

    def partner(self, name):
        """ Another zygote, started in another environment. """
        if name not in self.partners:
            scratch = os.path.join(self.base, f"partner-{name}")
            os.makedirs(os.path.join(scratch, "spacepy"))
            env = {**os.environ, **PARTNERS[name], "SPACEPY": os.path.join(scratch, "spacepy")}
            proc = subprocess.Popen([sys.executable, "-u", "-m", "sim.worker", json.dumps({**self.conf, "scratch": scratch})],
                                    env=env, cwd=scratch, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            if not json.loads(proc.stdout.readline()).get("ready"):
                raise RuntimeError("the partner did not start")
            self.partners[name] = proc
        return self.partners[name]

    def remote_oracle(self, name, oper):
        """ Outcome in a fresh process of another environment. """
        proc = self.partner(name)
        proc.stdin.write(json.dumps({"oracle": oper}).encode() + b"\n")
        proc.stdin.flush()
        res = json.loads(proc.stdout.readline())
        if "error" in res:
            raise RuntimeError(res["error"])
        return pickle.loads(base64.b64decode(res["data"]))

    def run(self, prop, scenario):
        """ Execute one scenario, returns the result dictionary. """
        check = importlib.import_module("checks." + prop.lower())
        oracles = {}
        partner = scenario.get("partner")
        for oper in check.oracle_ops(scenario) if hasattr(check, "oracle_ops") else ():
            key = json.dumps(oper, sort_keys=True)
            if key not in oracles:
                oracles[key] = self.remote_oracle(partner, oper) if partner else self.oracle(oper)
        dead = [(key, val) for key, val in oracles.items() if val[0] == "dead"]
        if dead:
            key, val = dead[0]
            return {"viol": [{"kind": f"fresh-{val[1][0]}", "detail": f"{val[1]} in operation {key[:2000]}"}], "stats": {}}

        res = self.fork(("run", prop, scenario, oracles), getattr(check, "CPU_LIMIT", 90), getattr(check, "WALL_LIMIT", 240))
        if res[0] == "ok":
            return res[1]
        if res[0] == "harness":
            return {"error": res[1]}
        if res[0] in ("killed", "slow"):
            return {"error": f"{res}"}
        kind = res[0] if res[0] != "crash" else f"crash-{res[1]}"
        return {"viol": [{"kind": kind, "detail": f"process ended: {res}", "at": res[-1]}], "stats": {}}


def _dumps(obj):
    """ Pickled data not depending on which objects are shared. """
    out = io.BytesIO()
    pickler = pickle.Pickler(out)
    pickler.fast = True
    pickler.dump(obj)
    return out.getvalue()


def _read(fdesc, size):
    data = b""
    while len(data) < size:
        chunk = os.read(fdesc, size - len(data))
        if not chunk:
            raise RuntimeError("the forker has ended")
        data += chunk
    return data


def _write(fdesc, data):
    while data:
        data = data[os.write(fdesc, data):]


def _from_package(exc, pkg):
    """ True if the exception comes from the package (or from libraries called by it). """
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    found, trace = False, exc.__traceback__
    while trace is not None:
        name = trace.tb_frame.f_code.co_filename
        if name.startswith(pkg + os.sep):
            found = True
        elif name.startswith(here):
            found = False
        trace = trace.tb_next
    return found


def _activity(group):
    """ CPU times of all threads in the process group, if all are asleep. """
    found = []
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open(f"/proc/{name}/stat", "rb") as file_in:
                fields = file_in.read().rpartition(b")")[2].split()
            if int(fields[2]) != group:
                continue
            for task in os.listdir(f"/proc/{name}/task"):
                with open(f"/proc/{name}/task/{task}/stat", "rb") as file_in:
                    fields = file_in.read().rpartition(b")")[2].split()
                if fields[0] != b"S":
                    return None
                found.append((name, task, fields[11], fields[12]))
        except OSError:
            return None
    return sorted(found) or None


def _cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat", "rb") as file_in:
            fields = file_in.read().rpartition(b")")[2].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def main():
    conf = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    log = os.open(conf["log"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(log, 2)
    zygote = Zygote(conf)
    from . import gen
    print(json.dumps({"ready": 1}), file=out)
    for line in sys.stdin:
        req = json.loads(line)
        if "stop" in req:
            break
        if "oracle" in req:
            try:
                res = {"data": base64.b64encode(pickle.dumps(zygote.oracle(req["oracle"]))).decode()}
            except Exception:
                res = {"error": traceback.format_exc()}
            print(json.dumps(res), file=out)
            continue
        try:
            check = importlib.import_module("checks." + req["prop"].lower())
            scenario = req.get("sc")
            if scenario is None:
                scenario = check.gen(gen.rng_for(req["seed"], req["prop"], req["tier"]), req["tier"], req["seed"])
            start = time.monotonic()
            res = zygote.run(req["prop"], scenario)
            res["dt"] = time.monotonic() - start
            res["hs"] = os.environ.get("PYTHONHASHSEED")
            if res.get("viol") or res.get("error") or req.get("want"):
                res["sc"] = res.pop("final", None) or scenario
        except Exception:
            res = {"error": traceback.format_exc()}
        res["id"] = req["id"]
        print(json.dumps(res), file=out)


if __name__ == "__main__":
    main()
