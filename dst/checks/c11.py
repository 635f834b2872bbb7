"""C11: a composed model follows the history of its components.

Random histories of additions (some of them failing), evaluations (some with a
failing component) and queries on several composed models nested one in another,
checked after every step against an executable reference: a list of separately
built components which are evaluated alone, summed, rotated and scaled.
"""
import numpy as np
from sim import gen as G, ops
from sim.values import mk
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2500}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("A case is a history of 5-25 additions, failing additions, evaluations, failing evaluations and queries on 1-3 composed "
        "models which are nested one in another; non-trivial if at least 2 additions and 2 evaluations succeeded.")
STATES = "distinct tuples (component kinds with the nesting, failed additions so far, step kind, outcome, coordinate systems)"
REAL = common.REAL
STUB = common.STUB + ["some components (StubField: an analytic field which raises on demand)"]
ASSUMPTIONS = [common.ASSUME[0], "the separately evaluated components give the reference (their own evaluation is real code)",
               "sums are compared with a relative tolerance of 1e-9"]


class Broken:
    """ Objects which cannot be added. """
    def __init__(self, how):
        self.how = how

    @property
    def parameters(self):
        if self.how == "noparam":
            raise AttributeError("parameters")
        if self.how == "runtime":
            raise RuntimeError("injected")
        if self.how == "paramtype":
            return None
        return ("time", "location", "bad_parameter")

    @property
    def validity(self):
        if self.how == "novalid":
            raise AttributeError("validity")
        if self.how == "validtype":
            return None
        if self.how == "validlen":
            return (0.0, 1.0, 2.0)
        if self.how == "validstr":
            return ("a", "b")
        if self.how == "validrun":
            raise RuntimeError("injected")
        return (5.0, 6.0)

    def eval(self, *args, **kwargs):
        raise RuntimeError("must not be evaluated")


BROKEN = ["noparam", "runtime", "paramtype", "novalid", "validtype", "validlen", "validstr", "validrun", "none", "number"]


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.005)
    nmod = rng.choice([1, 2, 2, 3])
    leaves = []
    for i in range(rng.randint(2, 5)):
        kind = rng.choice(["shc", "igrf", "wmm", "coef", "coef", "coef", "ccomp", "ccomb", "dip", "mioi", "mioe", "mioc", "stub", "stub", "stub", "composed", "mma"])
        rec = g._recipe(kind, 1)
        if kind == "stub":
            if rng.random() < 0.4:
                rec["spec"]["keep"] = 1
            elif rng.random() < 0.4:
                rec["spec"]["dt"] = rng.choice(["i4", "i8", "f4", ">f8", "list"])
            rec["spec"].update(boom=i, validity=rng.choice([["-inf", "inf"], [-1500.0, 6500.0], [7000.0, 9000.0], [0.0, 3000.0]]),
                               parameters=rng.choice([["time", "location"], ["time", "location", "f107"], ["location", "x_param"]]))
        leaves.append(rec)
    steps = []
    for _ in range(rng.randint(5, 14 if tier == "quick" else 25)):
        tgt = rng.randrange(nmod)
        x = rng.random()
        if x < 0.36:
            params = {}
            y = rng.random()
            if y < 0.35:
                params[g.pick("max_degree", "min_degree")] = rng.randint(1, 4)
            elif y < 0.45:
                params["f107"] = round(rng.uniform(60, 150), 1)
            elif y < 0.55:
                params["boost"] = round(rng.uniform(0, 2), 2)
            elif y < 0.6:
                params["boom"] = -1     # masks the one of the evaluation
            scale = rng.choice([1.0, 1.0, -1.0, 0.5, 3.0, 0.0, 2, {"k": "vec", "s": g.seed(), "sh": []}])
            if tgt > 0 and rng.random() < 0.35:
                item = ["ref", rng.randrange(tgt)]
            else:
                item = ["leaf", rng.randrange(len(leaves))]
            steps.append({"do": "push", "tgt": tgt, "item": item, "scale": scale, "params": params})
        elif x < 0.44:
            steps.append({"do": "badpush", "tgt": tgt, "how": rng.choice(BROKEN), "scale": rng.choice([1.0, 2.0])})
        elif x < 0.52:
            steps.append({"do": "info", "tgt": tgt})
        else:
            oper = g.evalop(rec={"m": "composed", "items": [[leaf, 1.0, {}] for leaf in leaves]})
            opt = oper.get("opt", {})
            opt.pop("lat_sol", None)
            opt.pop("lon_sol", None)
            if rng.random() < 0.8 and any(G._has_mio(leaf) for leaf in leaves):
                opt.setdefault("f107", 95.0)
            if rng.random() < 0.2:
                opt["boost"] = round(rng.uniform(0, 2), 2)
            if rng.random() < 0.25:
                opt["boom"] = rng.randrange(len(leaves))
            if rng.random() < 0.3:
                opt["scale"] = rng.choice([-1.0, 2.0, 0.0, {"k": "vec", "s": g.seed(), "sh": []}])
            oper["opt"] = opt
            del oper["m"]
            steps.append({"do": "eval", "tgt": tgt, "o": oper})
    steps.append({"do": "info", "tgt": nmod - 1})
    init = [[rng.randrange(len(leaves)) for _ in range(rng.choice([0, 0, 0, 1, 2]))] for _ in range(nmod)]
    return {"n": nmod, "leaves": leaves, "init": init, "steps": steps, "_lists": ["steps"]}


class Ref:
    """ Reference composed model. """
    def __init__(self):
        self.items = []

    def eval(self, time, sph, opts):
        """ Sum in the spherical coordinates. """
        total = None
        opts = dict(opts)
        final = opts.pop("scale", None)
        for model, scale, params in self.items:
            args = {**opts, **params}
            if isinstance(model, Ref):
                part = model.eval(time, sph, {**args, "scale": scale})
            else:
                part = np.array(model.eval(time, sph, scale=scale, **args), dtype="f8")
            total = part if total is None else total + part
        if total is None:
            total = np.zeros(np.shape(sph))
            total[np.isnan(time)] = np.nan
        if final is not None:
            total = total * final
        return total

    def validity(self):
        start, end = -np.inf, np.inf
        for model, _, _ in self.items:
            lo, hi = model.validity() if isinstance(model, Ref) else model.validity
            start, end = max(start, float(lo)), min(end, float(hi))
            if end < start:
                return (-np.inf, -np.inf)
        return (start, end)

    def parameters(self):
        out = {"time", "location"}
        for model, _, _ in self.items:
            out |= set(model.parameters() if isinstance(model, Ref) else model.parameters)
        return out


def rotate(vec, sph, geod, oct_):
    """ Rotate the northward, eastward, outward components. """
    north, east, out = vec[..., 0], vec[..., 1], vec[..., 2]
    if oct_ == 1:
        return vec
    if oct_ == 0:
        ang = np.radians(geod[..., 0] - sph[..., 0])
        # the geodetic vertical is tilted by the difference of the latitudes
        return np.stack([north*np.cos(ang) - out*np.sin(ang), east, north*np.sin(ang) + out*np.cos(ang)], -1)
    lat, lon = np.radians(sph[..., 0]), np.radians(sph[..., 1])
    hor = out*np.cos(lat) - north*np.sin(lat)
    return np.stack([hor*np.cos(lon) - east*np.sin(lon), hor*np.sin(lon) + east*np.cos(lon),
                     out*np.sin(lat) + north*np.cos(lat)], -1)


def reference(model, oper, args):
    from eoxmagmod import convert
    time = np.asarray(args["t"], dtype="f8")
    loc = np.asarray(args["x"], dtype="f8")
    ndim = max(time.ndim, loc.ndim - 1)
    shape = time.shape if time.ndim == ndim else loc.shape[:-1]
    time = np.broadcast_to(time.reshape(time.shape + (1,)*(ndim - time.ndim)), shape).copy()
    loc = np.broadcast_to(loc.reshape(loc.shape[:-1] + (1,)*(ndim - loc.ndim + 1) + (3,)), (*shape, 3)).copy()
    sph = convert(loc, oper["ict"], 1)
    opts = {}
    final = None
    for key, value in args["opt"].items():
        if key == "scale":
            final = value
        elif isinstance(value, np.ndarray) and value.ndim:
            opts[key] = np.broadcast_to(value.reshape(value.shape + (1,)*(ndim - value.ndim)), shape).copy()
        else:
            opts[key] = value
    out = model.eval(time, sph, opts)
    geod = convert(sph, 1, 0) if oper["oct"] == 0 else None
    out = rotate(out, sph, geod, oper["oct"])
    return out if final is None else out*final


def run(sc, sim):
    import eoxmagmod
    env = sim.env
    ref_env = ops.Env(sim.world)
    init = sc.get("init", [[]]*sc["n"])     # models given to the constructor
    real = [eoxmagmod.ComposedGeomagneticModel(*[env.model(sc["leaves"][num]) for num in nums]) for nums in init]
    refs = [Ref() for _ in range(sc["n"])]
    kinds = [[sc["leaves"][num]["m"] for num in nums] for nums in init]
    for ref, nums in zip(refs, init):
        ref.items.extend((ref_env.model(sc["leaves"][num]), 1.0, {}) for num in nums)
    failed = 0
    good_push = good_eval = 0
    for idx, step in enumerate(sc["steps"]):
        sim.at(idx)
        tgt = step["tgt"]
        sim.count("steps")
        outcome = "ok"
        if step["do"] == "push":
            which, num = step["item"]
            if which == "ref":
                item, ref_item, kind = real[num], refs[num], "nested"
            else:
                rec = sc["leaves"][num]
                item, ref_item, kind = env.model(rec), ref_env.model(rec), rec["m"]
            scale = mk(step["scale"])
            params = dict(step["params"])
            real[tgt].push(item, scale, **params)
            refs[tgt].items.append((ref_item, mk(step["scale"]), dict(step["params"])))
            kinds[tgt].append(kind)
            good_push += 1
        elif step["do"] == "badpush":
            sim.count("fault:failed-addition")
            item = {"none": None, "number": 3.5}.get(step["how"], Broken(step["how"]) if step["how"] not in ("none", "number") else None)
            try:
                real[tgt].push(item, step["scale"], max_degree=2)
                outcome = "accepted"
                sim.fail("accepted", f"component {step['how']} has been added without a failure", idx)
            except Exception:
                outcome = "rejected"
                failed += 1
        elif step["do"] == "info":
            try:
                got = [float(v) for v in real[tgt].validity]
                par = list(real[tgt].parameters)
            except Exception as exc:
                sim.fail("validity", f"validity or parameters fail: {exc!r}", idx)
                break
            if tuple(got) != refs[tgt].validity():
                sim.fail("validity", f"validity {got} instead of {refs[tgt].validity()} of {kinds[tgt]}", idx)
            if sorted(par) != sorted(refs[tgt].parameters()):
                sim.fail("parameters", f"parameters {sorted(par)} instead of {sorted(refs[tgt].parameters())}", idx)
        else:
            oper = step["o"]
            args = ops.build_args(env, oper)
            ref_args = ops.build_args(ref_env, oper)
            if "boom" in oper["opt"]:
                sim.count("fault:failing-component")
            want = ops.outcome(reference, refs[tgt], oper, ref_args)
            got = ops.outcome(lambda: real[tgt].eval(
                args["t"], args["x"], input_coordinate_system=oper["ict"], output_coordinate_system=oper["oct"], **args["opt"]))
            outcome = got[0]
            good_eval += got[0] == "ok"
            if got[0] != want[0]:
                sim.fail("result", f"{got[:2] if got[0] == 'err' else 'a result'} instead of {want[:2] if want[0] == 'err' else 'a result'}, "
                         f"components {kinds[tgt]}", idx)
            elif got[0] == "ok":
                # sums of large terms of different signs: absolute tolerance by the largest component
                dif = ops.same(np.asarray(got[1]), np.asarray(want[1]), 1e-9, 1e-10)
                if dif:
                    sim.fail("result", f"{dif}, components {kinds[tgt]}, {oper}", idx)
            elif got[1] != want[1]:
                sim.fail("result", f"{got[1]} instead of {want[1]}, components {kinds[tgt]}", idx)
        sim.count("calls")
        sim.sig(str([kinds[tgt], failed, step["do"], outcome, (step.get("o") or {}).get("ict"), (step.get("o") or {}).get("oct")]))
        if sim.viol:
            break
    if good_push >= 2 and good_eval >= 2:
        sim.count("nontrivial")
