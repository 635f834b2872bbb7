"""C12: field-line tracing stays bounded and faithful over any field source.

The tracer (real code) runs over a simulated field source, a pure function of
the position with injected faults (regions where the field is not a number,
infinite, zero, reversed, huge, or where the source fails; a failure at the n-th
evaluation), or over real models, and the returned line is checked against the
field evaluated point by point.
"""
import copy
import math
import numpy as np
from sim import gen as G, ops
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 3500}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("A case is 1-4 traces over one field source with 0-3 faulty regions or failing evaluations; non-trivial if at least "
        "one trace returned 3 or more points or was ended by a failure of the source.")
STATES = "distinct tuples (source kind, faults, reason of the end of each branch, coordinate systems, number of points)"
REAL = common.REAL
STUB = common.STUB + ["the field source of most runs (analytic field with faults)"]
ASSUMPTIONS = [common.ASSUME[0], "the field source is a function of the position", "consecutive points are compared with a relative tolerance of 1e-9"]

RE = 6371.2


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.005)
    if rng.random() < 0.72:
        src = {"kind": rng.choice(["dipole", "dipole", "const", "swirl", "radial", "zero", "weak"]), "par": round(rng.uniform(0.1, 3), 3), "faults": []}
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            region = rng.choice([["r>", round(rng.uniform(6000, 12000), 1)], ["r<", round(rng.uniform(6300, 9000), 1)],
                                 ["z>", round(rng.uniform(-8000, 8000), 1)], ["x>", round(rng.uniform(-8000, 8000), 1)],
                                 ["cell", round(rng.uniform(50, 2000), 1)]])
            src["faults"].append([region, rng.choice(["nan", "nan1", "inf", "zero", "flip", "huge", "tiny", "raise", "jump", "ragged"])])
        if rng.random() < 0.3:
            src["fail_at"] = [rng.randint(1, 30), rng.choice(["RuntimeError", "KeyError", "MemoryError", "KeyboardInterrupt", "StopIteration", "ValueError"])]
        rec = {"src": src}
        lo, hi = -2000.0, 8000.0
    else:
        rec = g.recipe(kinds=("shc", "igrf", "wmm", "coef", "dip", "composed", "composed"))
        if any("stub" == s for s in [rec.get("m")]):
            rec = g.recipe(kinds=("coef",))
        lo, hi = g.recipe_time(rec)
    traces = []
    for _ in range(rng.randint(1, 4)):
        ict = g.ct()
        lat, lon = rng.uniform(-88, 88), rng.uniform(-180, 180)
        rad = rng.choice([rng.uniform(6400, 7500), rng.uniform(6400, 7500), rng.uniform(6000, 6400), rng.uniform(8000, 30000)])
        topt = {"max_steps": rng.choice([0, 1, 1, 2, 3, 5, 10, 25, rng.randint(20, 60)])}
        x = rng.random()
        if x < 0.6:
            topt["step"] = rng.choice([10.0, 100.0, 500.0, 1000.0, -100.0, 1e4, 0.0, 100])
        if rng.random() < 0.35:
            topt["min_radius"] = rng.choice([6300.0, 6500.0, 6000, 7000.0, 0.0, -1.0])
        if rng.random() < 0.35:
            topt["max_radius"] = rng.choice([7000.0, 8000.0, 20000.0, 1e5, 6000.0, math.inf])
        if rng.random() < 0.1:
            topt["unknown_option"] = 3
        if rng.random() < 0.05:
            topt = None
        traces.append({"t": round(rng.uniform(lo, hi), 3), "pt": [round(v, 4) for v in (lat, lon, rad)], "ict": ict, "oct": g.ct(),
                       "topt": topt, "lay": rng.choice(["C", "list", "step", "ro", "int", "tuple", "swap"]),
                       "mopt": {} if rng.random() < 0.6 or "src" in rec else {"max_degree": rng.randint(1, 3)}})
        if rng.random() < 0.15:     # taken over from options of evaluations
            traces[-1]["mopt"] = {**traces[-1]["mopt"], rng.choice(["input_coordinate_system", "output_coordinate_system"]): rng.randrange(3)}
    return {"m": rec, "traces": traces, "_lists": ["traces"]}


def shrinks(sc):
    src = sc["m"].get("src")
    if src:
        for i in range(len(src["faults"])):
            yield {**sc, "m": {"src": {**src, "faults": src["faults"][:i] + src["faults"][i + 1:]}}}
        if "fail_at" in src:
            yield {**sc, "m": {"src": {k: v for k, v in src.items() if k != "fail_at"}}}
    for i, item in enumerate(sc["traces"]):
        if item["topt"] and len(item["topt"]) > 1:
            for key in item["topt"]:
                smaller = {k: v for k, v in item["topt"].items() if k != key}
                yield {**sc, "traces": sc["traces"][:i] + [{**item, "topt": smaller}] + sc["traces"][i + 1:]}


class Source:
    """ Simulated field source. """
    parameters = ("time", "location")
    validity = (-math.inf, math.inf)

    def __init__(self, spec):
        self.spec = spec
        self.calls = 0
        self.raised = None

    def field(self, pos):
        spec = self.spec
        x, y, z = [float(v) for v in pos]
        finite = math.isfinite(x) and math.isfinite(y) and math.isfinite(z)
        rad = math.hypot(x, y, z) if finite else math.nan
        par = spec["par"]
        kind = spec["kind"]
        if kind == "dipole":
            if rad and finite:
                unit = (x/rad, y/rad, z/rad)
                mom = (0.1*par, -0.05, -1.0)
                dot = sum(m*u for m, u in zip(mom, unit))
                amp = 3e4*par*(RE/rad)*(RE/rad)*(RE/rad)
                vec = [amp*(3*u*dot - m) for m, u in zip(mom, unit)]
            else:
                vec = [math.nan]*3
        elif kind == "const":
            vec = [1e4*par, -2e4, 1.5e4]
        elif kind == "swirl":
            vec = [-y, x, 500.0*par]
        elif kind == "radial":
            vec = [x*par, y*par, z*par]
        elif kind == "zero":
            vec = [0.0, 0.0, 0.0]
        else:
            vec = [1e-300, 3e-300*par, -1e-301]
        for (region, limit), fault in spec["faults"]:
            if region == "r>":
                inside = rad > limit
            elif region == "r<":
                inside = rad < limit
            elif region == "z>":
                inside = z > limit
            elif region == "x>":
                inside = x > limit
            else:
                inside = finite and (math.floor(x/limit) + math.floor(y/limit) + math.floor(z/limit)) % 3 == 0
            if not inside:
                continue
            if fault == "nan":
                vec = [math.nan]*3
            elif fault == "nan1":
                vec = [vec[0], math.nan, vec[2]]
            elif fault == "inf":
                vec = [math.inf, vec[1], vec[2]]
            elif fault == "zero":
                vec = [0.0, 0.0, 0.0]
            elif fault == "flip":
                vec = [-v for v in vec]
            elif fault == "huge":
                vec = [v*1e200 for v in vec]
            elif fault == "tiny":
                vec = [v*1e-200 for v in vec]
            elif fault == "jump":
                vec = [vec[2] + 1e3, vec[0] + 1e3, vec[1] + 1e3]
            elif fault == "raise":
                raise RuntimeError("source fails in the region")
            elif fault == "ragged" and finite and math.floor(abs(x)) % 2:
                vec = [v*0.0 for v in vec]
        return np.array(vec)

    def eval(self, time, location, input_coordinate_system=1, output_coordinate_system=1, **options):
        from eoxmagmod import convert
        from eoxmagmod import vrot_cart2sph
        self.calls += 1
        fail = self.spec.get("fail_at")
        if fail and self.calls == fail[0]:
            self.raised = {"RuntimeError": RuntimeError, "KeyError": KeyError, "MemoryError": MemoryError, "ValueError": ValueError,
                           "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt}[fail[1]]("injected")
            raise self.raised
        loc = np.asarray(location, dtype="f8")
        pos = loc if input_coordinate_system == 2 else convert(loc, input_coordinate_system, 2)
        flat = pos.reshape(-1, 3)
        try:
            out = np.array([self.field(item) for item in flat]).reshape(pos.shape)
        except RuntimeError as exc:
            self.raised = exc
            raise
        if output_coordinate_system == 2:
            return out
        sph = convert(pos, 2, 1)
        out = vrot_cart2sph(out, sph[..., 0], sph[..., 1])
        if output_coordinate_system == 0:
            from eoxmagmod import vrot_sph2geod
            geod = convert(pos, 2, 0)
            out = vrot_sph2geod(out, geod[..., 0] - sph[..., 0])
        return out


class Counter:
    """ Real model with counted evaluations. """
    def __init__(self, model):
        self.model = model
        self.calls = 0

    def eval(self, *args, **kwargs):
        self.calls += 1
        return self.model.eval(*args, **kwargs)


def make_point(item):
    from eoxmagmod import convert
    from sim.values import layout
    pt = convert(np.array(item["pt"]), 1, item["ict"])
    if item["lay"] == "int":
        return np.rint(pt).astype("i8")
    return layout(np.array(pt), item["lay"])


def run(sc, sim):
    import eoxmagmod
    is_src = "src" in sc["m"]
    model = Source(sc["m"]["src"]) if is_src else Counter(sim.env.model(sc["m"]))
    for idx, item in enumerate(sc["traces"]):
        sim.at(idx)
        point = make_point(item)
        before = copy.deepcopy(point)
        topt = copy.deepcopy(item["topt"])
        mopt = dict(item["mopt"])
        kwargs = {} if topt is None else {"trace_options": topt}
        if mopt:
            kwargs["model_options"] = mopt
        eff = dict({"max_steps": 500, "step": 1e2, "min_radius": 0.9977*RE, "max_radius": 1e6*RE}, **(item["topt"] or {}))
        model.calls = 0
        if is_src:
            model.raised = None
            if sc["m"]["src"]["faults"]:
                sim.count("fault:source-region")
        sim.count("calls")
        exc = None
        try:
            # the Cartesian line first, then the requested coordinate system
            coords, field = eoxmagmod.trace_field_line(model, item["t"], point, item["ict"], 2, **kwargs)
        except BaseException as caught:
            exc = caught
        sim.count("steps", model.calls)
        limit = 2*(eff["max_steps"] + 1)
        if model.calls > limit:
            sim.fail("bound", f"{model.calls} evaluations with max_steps {eff['max_steps']}", idx)
        if topt != item["topt"] or mopt != item["mopt"]:
            sim.fail("options", f"options changed to {topt}, {mopt}", idx)
        if not (np.array_equal(np.asarray(before), np.asarray(point)) and type(before) is type(point)):
            sim.fail("point", f"starting point changed from {before} to {point}", idx)
        if exc is not None:
            sim.count("fault:source-exception")
            if is_src and exc is model.raised:
                sim.count("nontrivial", 0 if sim.stats.get("nontrivial") else 1)
                sim.sig(str(["exc", sc["m"]["src"]["kind"], type(exc).__name__, min(model.calls, 20)]))
                continue
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise exc
            sim.fail("exception", f"unexpected {exc!r}, point {point!r}, {item}", idx)
            break
        if is_src and model.raised is not None:
            sim.fail("swallowed", f"failure of the source {model.raised!r} has not reached the caller", idx)
            break
        if not sim.viol:
            check_line(sim, sc, item, idx, model, point, eff, coords, field)
        if sim.viol:
            break
        sim.count("nontrivial", 0 if sim.stats.get("nontrivial") or len(coords) < 3 else 1)
        # the requested coordinate system
        if item["oct"] != 2 and not (is_src and "fail_at" in sc["m"]["src"]):
            coords2, field2 = eoxmagmod.trace_field_line(model, item["t"], point, item["ict"], item["oct"], **kwargs)
            conv = eoxmagmod.convert(coords, 2, item["oct"])
            rot = eoxmagmod.vrotate(field, None, conv, 2, item["oct"])
            dif = ops.same(np.asarray(coords2), np.asarray(conv), 1e-9, 1e-12, True) or ops.same(np.asarray(field2), np.asarray(rot), 1e-9, 1e-12)
            if dif:
                sim.fail("system", f"line in the coordinate system {item['oct']}: {dif}", idx)
                break


def check_line(sim, sc, item, idx, model, point, eff, coords, field):
    import eoxmagmod
    is_src = "src" in sc["m"]
    step, max_steps = eff["step"], eff["max_steps"]
    coords, field = np.asarray(coords), np.asarray(field)
    if coords.ndim != 2 or coords.shape != field.shape or coords.shape[1] != 3:
        sim.fail("shape", f"{coords.shape} points and {field.shape} vectors", idx)
        return
    n = len(coords)
    if n > 2*max_steps + 1:
        sim.fail("bound", f"{n} points with max_steps {max_steps}", idx)
        return
    start = np.asarray(eoxmagmod.convert(np.asarray(point, dtype="f8"), item["ict"], 2))

    def close(one, two, scale=None):
        one, two = np.asarray(one, dtype="f8"), np.asarray(two, dtype="f8")
        with np.errstate(all="ignore"):
            tol = 1e-9*np.maximum(np.max(np.abs(two[np.isfinite(two)]), initial=0.0) if scale is None else scale, 1e-290)
            return bool(np.all((np.abs(one - two) <= tol) | (one == two) | (np.isnan(one) & np.isnan(two))))
    # a vector is the field at its point
    if is_src:
        truth = np.array([model.field(pos) for pos in coords])
    else:
        mopt = {key: value for key, value in item["mopt"].items() if not key.endswith("system")}
        truth = np.array([model.model.eval(item["t"], pos, input_coordinate_system=2, output_coordinate_system=2, **mopt) for pos in coords])
    for k in range(n):
        # faults change the field abruptly, the point is given exactly
        if not close(field[k], truth[k]):
            sim.fail("vector", f"vector {k} of {n} is {field[k].tolist()} instead of {truth[k].tolist()} at {coords[k].tolist()}", idx)
            return

    def radius(pos):
        with np.errstate(all="ignore"):
            return float(np.sqrt(np.sum(pos*pos))) if np.max(np.abs(pos)) < 1e150 else float(np.max(np.abs(pos)))

    def displacement(pos, vec):
        with np.errstate(all="ignore"):
            size = float(eoxmagmod.vnorm(vec))
            unit = vec*(radius(pos)/(RE*size)) if size > 0 else 0.0*vec
            return step*unit

    def outside(pos):
        rad = radius(pos)
        return rad <= eff["min_radius"] or rad >= eff["max_radius"]

    # candidate positions of the starting point
    cand = [k for k in range(n) if close(coords[k], start, radius(start))]
    if not cand:
        sim.fail("start", f"the line does not pass through the starting point {start.tolist()}, the nearest point is "
                 f"{coords[np.argmin(np.nan_to_num(np.abs(coords - start).sum(1), nan=1e300, posinf=1e300))].tolist()}", idx)
        return
    # both branches have to fit to the allowed number of steps
    cand = [k for k in cand if k <= max_steps and n - 1 - k <= max_steps] or cand[:3]
    reasons = []
    for zero in cand:
        problem = None
        # downstream: zero .. n-1, upstream: zero .. 0
        for sign, branch in ((1.0, range(zero, n)), (-1.0, range(zero, -1, -1))):
            branch = list(branch)
            for k0, k1 in zip(branch[:-1], branch[1:]):
                want = coords[k0] + sign*displacement(coords[k0], field[k0])
                if not close(coords[k1], want, max(radius(coords[k0]), abs(step)) if np.all(np.isfinite(coords[k0])) else None):
                    problem = f"point {k1} of {n} is {coords[k1].tolist()} instead of {want.tolist()}"
                    break
            if problem:
                break
            for k in branch[1:-1]:
                if outside(coords[k]):
                    problem = f"the line goes on beyond the radius limits at point {k} of {n}, radius {radius(coords[k])}"
                    break
            if problem:
                break
            steps = len(branch) - 1
            if max_steps > 0 and steps < max_steps and not (steps > 0 and outside(coords[branch[-1]])):
                problem = f"branch of {steps} steps ends at radius {radius(coords[branch[-1]])} inside of the limits"
                break
            if steps > max_steps:
                problem = f"branch of {steps} steps, max_steps {max_steps}"
                break
            reasons.append("steps" if steps == max_steps else "limit")
        if problem is None:
            break
    if problem:
        sim.fail("line", f"{problem}, {item}", idx)
        return
    sim.sig(str([sc["m"]["src"]["kind"] if is_src else sc["m"]["m"], sorted({f[1] for f in sc["m"]["src"]["faults"]}) if is_src else None,
                 reasons[-2:], item["ict"], item["oct"], n]))
