#!/opt/venv/bin/python
"""Driver of the simulator.

  main.py --property C01 [--tier quick|thorough] [--seed N]      run a check
  main.py --property C01 --replay FILE                           replay a failure
  main.py --property C01 --determinism N                         run seeds repeatedly and compare
"""
import argparse
import ctypes
import hashlib
import importlib
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim import build as builder, gen  # noqa: E402

NWORK = int(os.environ.get("DST_WORKERS", "8"))
PYTHON = builder.PYTHON
HASH_SEEDS = ["0", "1", "77", "4242"]


class HarnessError(Exception):
    pass


def _no_aslr():
    try:
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)
    except Exception:
        pass


class Worker:
    def __init__(self, tree, num, extra_env=None, cdf=None, prop=None):
        env = dict(tree["env"])
        env["LD_PRELOAD"] = tree["simos"]
        env["PYTHONPATH"] = tree["pkg"] + ":" + HERE
        env["PYTHONHASHSEED"] = HASH_SEEDS[num % len(HASH_SEEDS)]
        env.update(extra_env or {})
        # own configuration directory, spacepy rewrites it when imported
        Worker.serial = getattr(Worker, "serial", 0) + 1
        env["SPACEPY"] = os.path.join(tree["base"], f"spacepy{Worker.serial}")
        os.makedirs(env["SPACEPY"])
        scratch = os.path.join(tree["base"], "work", f"{Worker.serial:03d}")
        os.makedirs(scratch, exist_ok=True)
        self.log = os.path.join(tree["base"], f"worker{num}.log")
        conf = {"pkg": tree["pkg"], "simos": tree["simos"], "scratch": scratch, "log": self.log, "cdf": cdf, "num": num, "prop": prop}
        self.proc = subprocess.Popen(
            [PYTHON, "-u", "-m", "sim.worker", json.dumps(conf)], env=env, cwd=scratch,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=_no_aslr, start_new_session=True)
        self.busy = None
        self.buf = b""
        self.num = num

    def send(self, req):
        self.busy = req
        self.proc.stdin.write(json.dumps(req).encode() + b"\n")
        self.proc.stdin.flush()

    def lines(self):
        chunk = os.read(self.proc.stdout.fileno(), 1 << 20)
        if not chunk:
            with open(self.log, "rb") as file_in:
                tail = file_in.read()[-2000:].decode(errors="replace")
            raise HarnessError(f"worker {self.num} ended: {tail}")
        self.buf += chunk
        *full, self.buf = self.buf.split(b"\n")
        return [json.loads(line) for line in full]

    def stop(self):
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()


class Pool:
    def __init__(self, tree, size, extra_env=None, cdf=None, prop=None):
        self.workers = [Worker(tree, num, extra_env, cdf, prop) for num in range(size)]
        self.sel = selectors.DefaultSelector()
        for worker in self.workers:
            self.sel.register(worker.proc.stdout, selectors.EVENT_READ, worker)
        ready = 0
        start = time.monotonic()
        while ready < size:
            for key, _ in self.sel.select(10):
                for _ in key.data.lines():
                    ready += 1
            if time.monotonic() - start > 120:
                raise HarnessError("the workers did not start")

    def map(self, requests, on_result, stop=lambda: False):
        """ Process the requests (an iterator), in order of availability. """
        requests = iter(requests)
        active = 0
        more = True
        last = time.monotonic()

        def _feed(worker):
            nonlocal active, more
            worker.busy = None
            if not more or stop():
                return
            try:
                req = next(requests)
            except StopIteration:
                more = False
                return
            worker.send(req)
            active += 1
        for worker in self.workers:
            _feed(worker)
        while active:
            events = self.sel.select(30)
            if not events and time.monotonic() - last > 600:
                raise HarnessError("no progress")
            for key, _ in events:
                last = time.monotonic()
                for res in key.data.lines():
                    req = key.data.busy
                    active -= 1
                    on_result(req, res)
                    _feed(key.data)

    def run_list(self, reqs):
        """ Run all requests, results in the order of the requests. """
        out = [None] * len(reqs)

        def _done(req, res):
            out[req["id"]] = res
        self.map([dict(req, id=i) for i, req in enumerate(reqs)], _done)
        return out

    def close(self):
        for worker in self.workers:
            worker.stop()


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def family(kind):
    """ Violation class which has to persist in the minimisation. """
    return kind.split(":")[0]


# ------------------------------------------------------------------ minimise

def default_shrinks(scenario):
    """ Smaller scenarios: parts of the lists named in scenario["_lists"]. """
    for name in scenario.get("_lists", ["ops"]):
        items = scenario.get(name)
        if not isinstance(items, list):
            continue
        size = len(items)
        step = max(1, size // 2)
        while step >= 1 and size:
            for pos in range(0, size, step):
                smaller = items[:pos] + items[pos + step:]
                if len(smaller) < size:
                    yield {**scenario, name: smaller}
            if step == 1:
                break
            step //= 2


def minimise(pool, prop, check, scenario, kind, budget):
    end = time.monotonic() + budget
    best = scenario
    tried = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        gens = [default_shrinks(best)]
        if hasattr(check, "shrinks"):
            gens.append(check.shrinks(best))
        seen = set()
        for source in gens:
            batch = []
            exhausted = False
            while not exhausted and not improved and time.monotonic() < end:
                try:
                    cand = next(source)
                    key = digest(cand)
                    if key in seen:
                        continue
                    seen.add(key)
                    batch.append(cand)
                except StopIteration:
                    exhausted = True
                if len(batch) >= len(pool.workers) or (exhausted and batch):
                    results = pool.run_list([{"prop": prop, "sc": cand} for cand in batch])
                    tried += len(batch)
                    for cand, res in zip(batch, results):
                        if any(family(v["kind"]) == kind for v in res.get("viol", ())):
                            best, improved = cand, True
                            break
                    batch = []
            if improved:
                break
    return best, tried


# --------------------------------------------------------------------- check

def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as file_in:
        return [item for item in json.load(file_in) if item.get("status") != "fixed"]


def known_match(known, prop, viol):
    for item in known:
        if item["property"] == prop and item["kind"] == family(viol["kind"]) and item.get("match", "\0") in viol["detail"]:
            return item
    return None


def prepare(check, prop):
    tree = builder.build()
    cdf = None
    if getattr(check, "NEEDS_CDF", False):
        cdf = os.path.join(tree["base"], "cdf")
        env = dict(tree["env"], PYTHONPATH=tree["pkg"] + ":" + HERE)
        proc = subprocess.run([PYTHON, "-m", "sim.world_cdf", tree["pkg"], cdf], env=env, cwd=tree["base"],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
        if proc.returncode:
            raise HarnessError("CDF files cannot be prepared: " + proc.stdout.decode(errors="replace")[-2000:])
    return tree, cdf


def main():
    par = argparse.ArgumentParser()
    par.add_argument("--property", required=True)
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    par.add_argument("--count", type=int)
    par.add_argument("--replay")
    par.add_argument("--determinism", type=int)
    par.add_argument("--one", type=int, help="run one generated scenario and show it")
    par.add_argument("--keep-going", action="store_true")
    opt = par.parse_args()
    prop, tier = opt.property, opt.tier
    start = time.monotonic()
    print(f"property={prop} tier={tier} seed={opt.seed}", flush=True)
    check = importlib.import_module("checks." + prop.lower())
    tree, cdf = prepare(check, prop)
    extra = dict(getattr(check, "ENV", None) or {})
    if opt.replay:
        with open(opt.replay, encoding="utf-8") as file_in:
            extra.update(json.load(file_in).get("env", {}))
    pool = Pool(tree, 1 if opt.one is not None else NWORK, extra, cdf, prop)
    build_s = time.monotonic() - start
    try:
        if opt.replay:
            return replay(pool, prop, opt.replay)
        if opt.determinism:
            return determinism(tree, pool, prop, check, tier, opt, cdf)
        if opt.one is not None:
            res, = pool.run_list([{"prop": prop, "seed": opt.one, "tier": tier, "want": 1}])
            print(json.dumps(res, indent=1)[:20000])
            return 0
        return explore(tree, pool, prop, check, tier, opt, start, build_s, cdf)
    finally:
        pool.close()


def replay(pool, prop, path):
    with open(path, encoding="utf-8") as file_in:
        data = json.load(file_in)
    # the addresses of objects may differ slightly between the workers
    found = pool.run_list([{"prop": prop, "sc": data["scenario"]}]*len(pool.workers))
    res = next((res for res in found if res.get("viol")), found[0])
    if res.get("error"):
        print(res["error"], file=sys.stderr)
        return 2
    for viol in res["viol"]:
        print(f"  {viol['kind']}: {viol['detail'][:1500]}")
    if res["viol"]:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the failure is not reproduced")
    return 0


def determinism(tree, pool, prop, check, tier, opt, cdf):
    """ Every seed several times on different workers and hash seeds. """
    seeds = [opt.seed*1_000_003 + i for i in range(opt.determinism)]
    results = {seed: [] for seed in seeds}
    reqs = [{"prop": prop, "seed": seed, "tier": tier} for seed in seeds]
    for rnd in range(2):
        order = reqs if rnd == 0 else reqs[::-1]
        for req, res in zip(order, pool.run_list(order)):
            results[req["seed"]].append(res)
    pool2 = Pool(tree, 3, getattr(check, "ENV", None), cdf, prop)
    try:
        for req, res in zip(reqs, pool2.run_list(reqs)):
            results[req["seed"]].append(res)
    finally:
        pool2.close()
    bad = 0
    for seed, items in results.items():
        views = {json.dumps({k: v for k, v in res.items() if k not in ("id", "dt", "hs")}, sort_keys=True) for res in items}
        if len(views) > 1:
            bad += 1
            if bad <= 3:
                print("DIVERGED", seed)
                for view in views:
                    print("   ", view[:1500])
    print(f"determinism: {len(seeds)} seeds x 3 executions, {bad} diverged")
    return 1 if bad else 0


def _summary(found):
    kinds = {}
    for req, res in found:
        for viol in res["viol"][:1]:
            kinds.setdefault(viol["kind"], []).append((req["seed"], viol["detail"]))
    for kind, items in kinds.items():
        print(f"## {kind}: {len(items)} runs")
        for seed, detail in items[:4]:
            print("    ", seed, detail[:700])


def _confirm(tree, cdf, prop, check, plan, req, res):
    """ Reproduce a violation in fresh workers, minimise it and write the
    replay file. Returns None if it is not reproduced.
    """
    kind = family(res["viol"][0]["kind"])
    scenario = res["sc"]
    extra = {**(getattr(check, "ENV", None) or {}), "PYTHONHASHSEED": res["hs"]}
    fresh = Pool(tree, NWORK, extra, cdf, prop)
    try:
        again = fresh.run_list([{"prop": prop, "sc": scenario}] * 8)
        repro = sum(any(family(v["kind"]) == kind for v in r.get("viol", ())) for r in again)
        if repro == 0:
            print(f"UNREPRODUCED seed={req['seed']} {res['viol'][0]}", file=sys.stderr)
            return None
        small, tried = minimise(fresh, prop, check, scenario, kind, plan.get("minimise", 60))
        final, = fresh.run_list([{"prop": prop, "sc": small}])
    finally:
        fresh.close()
    out = os.path.join(VERIF, "replays")
    os.makedirs(out, exist_ok=True)
    viol = next((v for v in final.get("viol", ()) if family(v["kind"]) == kind), res["viol"][0])
    path = os.path.join(out, f"{prop}-{req['seed']}.json")
    with open(path, "w", encoding="utf-8") as file_out:
        json.dump({"property": prop, "seed": req["seed"], "violation": viol, "env": {"PYTHONHASHSEED": res["hs"]}, "scenario": small,
                   "reproduced": f"{repro} of 8", "minimisation_runs": tried}, file_out, indent=1)
    print(f"  seed {req['seed']}: {viol['kind']}: {viol['detail'][:1500]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return path


def explore(tree, pool, prop, check, tier, opt, start, build_s, cdf):
    plan = check.PLAN[tier]
    total = opt.count or plan["runs"]
    limit = plan.get("wall", 420 if tier == "quick" else 3000)
    begin = time.monotonic()
    known = load_known()
    agg = {"runs": 0, "stats": {}, "sigs": set(), "scen": set(), "nontrivial": 0, "cpu": 0.0}
    found, errors, seen_known, samples = [], [], {}, []

    def _requests():
        for i in range(total):
            if time.monotonic() - begin > limit:
                agg["cut"] = 1
                return
            seed = opt.seed*1_000_003 + i
            yield {"prop": prop, "seed": seed, "tier": tier, "id": i, "want": 1 if i < 3 else 0}

    def _done(req, res):
        if res.get("error"):
            errors.append((req, res["error"]))
            return
        agg["runs"] += 1
        agg["cpu"] += res.get("dt", 0)
        for key, value in res.get("stats", {}).items():
            agg["stats"][key] = agg["stats"].get(key, 0) + value
        for sig in res.get("sigs", ()):
            if len(agg["sigs"]) < 2_000_000:
                agg["sigs"].add(sig)
        if res.get("stats", {}).get("nontrivial"):
            agg["nontrivial"] += 1
        if req.get("want") and len(samples) < 2:
            samples.append({"seed": req["seed"], "scenario": _trim(res.get("sc"))})
        news = []
        for viol in res.get("viol", ()):
            item = known_match(known, prop, viol)
            if item:
                seen_known[item["id"]] = item
            else:
                news.append(viol)
        if news:
            found.append((req, dict(res, viol=news)))

    requests = _requests()
    violations = 0
    rc = 0
    unrepro = 0
    while not rc:
        pool.map(requests, _done, stop=lambda: bool(found and not opt.keep_going) or len(errors) > 20)
        if not found or unrepro > 20:
            break
        if opt.keep_going:
            _summary(found)
        path = None
        found.sort(key=lambda item: len(json.dumps(item[1].get("sc", ""))))
        for req, res in found[:6]:
            path = _confirm(tree, cdf, prop, check, plan, req, res)
            if path:
                violations, rc = 1, 1
                break
            # not repeatable, the search continues
            unrepro += 1
        found.clear()
    if errors and not rc:
        for req, err in errors[:3]:
            print(f"HARNESS ERROR seed={req['seed']}: {err}", file=sys.stderr)
        return 3
    for item in known:
        if item["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {item['what']}")
    if unrepro and not rc:
        rc = 3
    wall = time.monotonic() - start
    write_evidence(prop, tier, opt.seed, check, agg, samples, violations, wall, build_s, time.monotonic() - begin, errors)
    faults = {k[6:]: v for k, v in agg["stats"].items() if k.startswith("fault:")}
    print(f"{prop}: {agg['runs']} simulated runs, {agg['nontrivial']} non-trivial, {len(agg['sigs'])} distinct states, "
          f"faults {faults}, {wall:.1f} s", flush=True)
    return rc


def _trim(obj, depth=0):
    text = json.dumps(obj)
    return obj if len(text) < 6000 else text[:6000] + "..."


def write_evidence(prop, tier, seed, check, agg, samples, violations, wall, build_s, run_s, errors):
    stats = agg["stats"]
    runs = agg["runs"]
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": min(agg["nontrivial"], runs),
        "rule": check.RULE,
        "samples": samples or [{"note": "no run finished"}],
        "seeds": runs,
        "runs_per_hour": round(runs / max(run_s, 1e-3) * 3600),
        "distinct_states": len(agg["sigs"]),
        "state_measure": check.STATES,
        "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        "probes": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")},
        "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:")) and k != "nontrivial"},
        "simulated_time": {
            "steps": stats.get("steps", 0),
            "wall_clock_jumps_s": stats.get("clock_s", 0),
            "note": "the code has no timers; simulated time is counted in scheduler, trace, file and allocation steps",
        },
        "components": {
            "real": check.REAL,
            "stub": check.STUB,
        },
        "build_s": round(build_s, 1),
        "harness_errors": len(errors),
        "stopped_by_time_limit": bool(agg.get("cut")),
    }
    data = {
        "property": prop, "tier": tier, "seed": seed, "level": check.LEVEL, "coverage": coverage,
        "assumptions": check.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations,
    }
    path = os.path.join(VERIF, "evidence")
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, prop + ".json"), "w", encoding="utf-8") as file_out:
        json.dump(data, file_out, indent=1)


if __name__ == "__main__":
    try:
        code = main()
    except (HarnessError, builder.BuildError) as exc:
        print(f"HARNESS ERROR: {exc}", file=sys.stderr)
        code = 3
    sys.exit(code)
