"""C15: damaged model files are rejected, or read as they are written.

Histories of loads from files which a crash, a full disk, a failing medium or a
broken transfer left damaged, and of intact ones. An independent reader of the
formats tells which damaged files must be rejected, and which values the model
made of an accepted one shall have.
"""
import json
from sim import contents, gen as G, ops, osim as osmod, refread
from . import common

LEVEL = "exploration"
PLAN = {"quick": {"runs": 6000}, "thorough": {"runs": 100000, "wall": 3000}}
RULE = ("A case is a history of 2-8 loads of model files of one or two formats, each file intact or with 1-4 damages put "
        "on it, evaluations of the accepted models, and evaluations of the models loaded before; non-trivial if the content "
        "of a loaded file differed from the intact one.")
STATES = "distinct tuples (model kind, damaged file, damages, verdict of the independent reader, outcome, previous outcome)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME[:1] + [
    "a damage which leaves a valid file of other values is out of reach of any reader and only its faithful reading is required",
    "where the format leaves it open (blank lines, comments, undefined times) both rejecting and reading is accepted",
    "an accepted model is compared with one made of the independently read values by the public classes",
]

KINDS = ("shc", "shc", "shcc", "igrf", "wmm", "emm", "emm", "mioi", "mioe")
MAX_DEGREE = 300    # of the evaluated damaged models
NUMBERS = ["0", "-1", "1", "2", "7", "40", "1e3", "nan", "inf", "-inf", "1e400", "0.0", "x", "-", "1.5", "+3", "0x10", "1_0",
           "*****", "9999999999999999999", "32767", "-99999", "2000", "g", "h", "99999", "1.0.0", "1,5", "12D3"]


def older(g, token):
    """ Other version of the file. """
    kind, _, rest = token.partition(":")
    if kind in ("shc", "wmm", "igrf", "emms", "emmv", "mio"):
        args = rest.split(":")
        if g.r() < 0.6:
            args[0] = str(int(args[0]) + g.pick(1, 2))
        if len(args) > 1 and kind != "shc" and g.r() < 0.5:
            args[1] = str(max(1, int(args[1]) + g.pick(-1, 1)))
        if kind == "shc" and g.r() < 0.5:
            args[2] = str(max(int(args[1]), int(args[2]) + g.pick(-1, 1)))
        if kind == "shc" and g.r() < 0.3:
            args[3] = str(max(1, int(args[3]) + g.pick(-1, 1)))
        return ":".join([kind, *args])
    groups = [["chaos7", "chaos8", "chaos7p", "chaos8p"], ["igrf12", "igrf13", "igrf14"], ["lcs1", "mf7"]]
    for group in groups:
        if token in group:
            return g.pick(*group)
    return "alt:" + token


def position(g):
    return g.pick(round(g.r(), 5), round(g.r(), 5), round(g.r()*0.1, 5), round(1 - g.r()*0.05, 5))


def line(g):
    return g.pick(g.rng.randint(0, 6), g.rng.randint(-4, -1), g.rng.randrange(1000), g.rng.randint(2, 40))


def damages(g, token):
    """ Random damages of one file. """
    out = []
    for _ in range(g.pick(1, 1, 1, 2, 2, 3, 4)):
        x = g.r()
        if x < 0.10:
            out.append(["cut", position(g)])
        elif x < 0.14:
            out.append(["zero", position(g), g.pick(1, 16, 64, 512, 4096)])
        elif x < 0.20:
            out.append(["lose", position(g), g.pick(1, 1, 2, 5, 10, 64, 512)])
        elif x < 0.24:
            out.append(["again", position(g), g.pick(1, 5, 10, 64, 512)])
        elif x < 0.30:
            out.append(["stale", position(g), g.pick(16, 64, 512, 4096), older(g, token)])
        elif x < 0.35:
            out.append(["torn", position(g), older(g, token)])
        elif x < 0.38:
            out.append(["tail", older(g, token)])
        elif x < 0.40:
            out.append(["zeros", g.pick(1, 7, 512)])
        elif x < 0.42:
            out.append(["twice", g.pick(0.0, 0.0, position(g))])
        elif x < 0.45:
            out.append(["digit", position(g), g.rng.randint(1, 9)])
        elif x < 0.48:
            out.append(["char", position(g), g.pick(" ", "-", ".", "e", "\n", "#", "\t", "x", "9", "\x00", "\xb5", "\r", "\x1a")])
        elif x < 0.51:
            out.append(["bit", position(g), g.rng.randrange(8)])
        elif x < 0.56:
            out.append(["ldrop", line(g), g.pick(1, 1, 2, 5)])
        elif x < 0.61:
            out.append(["ldup", line(g), g.pick(1, 1, 2, 5)])
        elif x < 0.64:
            out.append(["lmove", line(g), line(g)])
        elif x < 0.66:
            out.append(["lswap", line(g), line(g)])
        elif x < 0.68:
            out.append(["ljoin", line(g), g.pick("", " ")])
        elif x < 0.70:
            out.append(["lsplit", line(g), round(g.r(), 3)])
        elif x < 0.72:
            out.append(["lins", line(g), g.pick("", "#", "1 1 1.0 1.0", "# comment", "9"*48, "-"*10, "Epoch: 2000.0")])
        elif x < 0.74:
            out.append(["lcut", line(g), round(g.r(), 3)])
        elif x < 0.77:
            out.append(["lstale", line(g), older(g, token)])
        elif x < 0.83:
            out.append(["tset", line(g), g.rng.randrange(12), g.pick(*NUMBERS)])
        elif x < 0.86:
            out.append(["tdrop", line(g), g.rng.randrange(-2, 10)])
        elif x < 0.885:
            out.append(["tdup", line(g), g.rng.randrange(-2, 10)])
        elif x < 0.90:
            out.append(["tadd", line(g), -1, g.pick(*NUMBERS)])
        elif x < 0.92:
            out.append(["tins", line(g), g.rng.randrange(10), g.pick(*NUMBERS)])
        elif x < 0.94:
            out.append(["tswap", line(g), g.rng.randrange(10), g.rng.randrange(10)])
        elif x < 0.96:
            out.append(["tneg", line(g), g.rng.randrange(4)])
        elif x < 0.965:
            out.append(["tapp", line(g), g.rng.randrange(-1, 4), g.pick(".5", ".0", ".", "e0", "e1", "_0", "x", "-", "D0")])
        elif x < 0.98:
            out.append(["tinc", line(g), g.rng.randrange(6), g.pick(-1, 1, 1, 2)])
        else:
            out.append([g.pick("crlf", "spaces")])
    if (token.startswith("shc:") or token in ("igrf12", "igrf13", "lcs1")) and g.r() < 0.08:
        out = [["novalid"], *out[:g.pick(0, 0, 1)]]
    if g.r() < 0.03:        # a single word of a row
        out = [["tapp", line(g), g.rng.randrange(0, 3), g.pick(".5", ".0", ".25", ".9", "e0", "D0")]]
    if g.r() < 0.04:        # consistently different header and rows
        out = [["tinc", g.pick(0, 1, 2), g.rng.randrange(3), g.pick(-1, 1)], *out[:1]]
    return out


def gen(rng, tier, seed):
    g = G.Gen(rng, big=0.02 if tier == "quick" else 0.05)
    bases = []
    for idx in range(g.pick(1, 1, 2)):
        rec = g._recipe(g.pick(*KINDS), 0)
        for num, ref in enumerate(rec["files"]):
            ref[0] = f"f{idx}{num}." + ref[0].rpartition(".")[2]
            if ref[1] in ("mf7", "sifm", "chaos8s", "emmsv") and tier == "quick":
                ref[1] = "shc:1:1:6:1:1:2000.0:1.0"
        if g.r() < 0.2:     # files of few coefficients
            small = {"shc": ["shc:2:1:1:2:2", "shc:1:1:1:1:1", "shc:1:0:1:1:1", "shc:3:2:2:2:2"], "wmm": ["wmm:1:1", "wmm:0:2"],
                     "igrf": ["igrf:1:1:1", "igrf:0:2:1"], "mioi": ["mio:4:1:0:0:1:0:0", "mio:1:1:0:0:0:0:0", "mio:2:1:1:0:0:0:0"]}
            small["mioe"] = small["mioi"]
            if rec["m"] in small and len(rec["files"]) == 1:
                rec["files"][0][1] = g.pick(*small[rec["m"]])
            elif rec["m"] == "emm":
                rec["files"][0][1], rec["files"][1][1] = g.pick(["emms:1:2", "emmv:1:1"], ["emms:2:3", "emmv:2:1"], ["emms:2:3", "emmv:2:2"])
        bases.append(rec)
    steps = []
    for _ in range(rng.randint(2, 8)):
        rec = json.loads(json.dumps(g.pick(*bases)))
        step = {"m": rec, "dmg": [[] for _ in rec["files"]]}
        if g.r() < 0.25:    # newer version
            for ref in rec["files"]:
                ref[1] = older(g, ref[1])
        if g.r() < 0.8:
            num = rng.randrange(len(rec["files"]))
            step["dmg"][num] = damages(g, rec["files"][num][1])
            if len(rec["files"]) > 1 and g.r() < 0.15:
                step["dmg"][1 - num] = damages(g, rec["files"][1 - num][1])
        elif len(rec["files"]) > 1 and g.r() < 0.5:     # parts of different versions
            num = rng.randrange(len(rec["files"]))
            rec["files"][num][1] = older(g, rec["files"][num][1])
            step["mixed"] = 1
        if g.r() < 0.1:
            step["maxdeg"] = rng.randint(1, 3)
        steps.append(step)
    other = g.evalop(rec=g._recipe(g.pick("shc", "igrf", "wmm", "emm", "mioi", "coef"), 0), shape=g.pick([], [2], [3]))
    for ref in other["m"].get("files", ()):
        ref[0] = "o" + ref[0]
    return {"steps": steps, "other": other, "put": g.pick("rename", "inplace"),
            "fill": [rng.randrange(len(common.FILLS)), rng.randrange(len(common.FILLS))], "_lists": ["steps"]}


def shrinks(sc):
    """ Fewer damages. """
    for idx, step in enumerate(sc["steps"]):
        for num, items in enumerate(step["dmg"]):
            for pos in range(len(items)):
                new = json.loads(json.dumps(sc))
                del new["steps"][idx]["dmg"][num][pos]
                yield new


def plain_words(token):
    return [row.split() for row in refread.split_lines(contents.content(token))]


def intact(step):
    return not any(step["dmg"]) and not step.get("mixed")


def oracle_ops(sc):
    return [{"op": "load", "m": step["m"]} for step in sc["steps"] if intact(step)] + [sc["other"]]


def token_of(step, num):
    base = step["m"]["files"][num][1]
    items = step["dmg"][num]
    return f"dmg|{json.dumps(items)}|{base}" if items else base


# ------------------------------------------------------------ reference

def reference(rec, tokens):
    """ Verdict of the independent reader and the data read by it. """
    data = [contents.content(token) for token in tokens]
    unclear = None
    out = []
    readers = {"shc": refread.read_shc, "shcc": refread.read_shc, "igrf": refread.read_igrf, "wmm": refread.read_wmm,
               "mioi": refread.read_mio, "mioe": refread.read_mio}
    try:
        if rec["m"] == "emm":
            return "valid", [refread.read_emm(*data)]
    except refread.Unclear as exc:
        return "unclear", exc
    except refread.Damaged as exc:
        return "damaged", exc
    for item in data:
        try:
            out.append(readers[rec["m"]](item))
        except refread.Damaged as exc:
            return "damaged", exc
        except refread.Unclear as exc:
            unclear = exc
    if unclear:
        return "unclear", unclear
    return "valid", out


def degree_of(parts):
    return max(n for part in parts for key in ("nm", "nm0") for n, _ in part.get(key, ()))


def make(rec, parts):
    """ Model made of the independently read data by the public classes. """
    import numpy as np
    from eoxmagmod.magnetic_model import coefficients as cm
    from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
    from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel
    from eoxmagmod.magnetic_model import model_mio
    from eoxmagmod.time_util import decimal_year_to_mjd2000

    def _years(part):
        return cm.SparseSHCoefficientsTimeDependentDecimalYear(np.array(part["nm"]), np.array(part["gh"]), np.array(part["t"]))

    kind = rec["m"]
    if kind in ("igrf", "wmm"):
        return SphericalHarmomicGeomagneticModel(_years(parts[0]))
    if kind == "emm":
        part = parts[0]
        return SphericalHarmomicGeomagneticModel(cm.CombinedSHCoefficients(
            _years(part), cm.SparseSHCoefficientsConstant(np.array(part["nm0"]), np.array(part["gh0"]))))
    if kind in ("shc", "shcc"):
        coefs = []
        kwargs = dict(rec.get("kw", {}))
        decimal = kwargs.pop("interpolate_in_decimal_years", False)
        for part in parts:
            opts = {"validity_start": part["valid"][0], "validity_end": part["valid"][1],
                    "to_mjd2000": decimal_year_to_mjd2000, **kwargs}
            nm, gh, times = np.array(part["nm"]), np.array(part["gh"]), np.array(part["t"])
            if len(times) == 1:
                coefs.append(cm.SparseSHCoefficientsConstant(nm, gh[:, 0], **opts))
            else:
                cls = cm.SparseSHCoefficientsTimeDependentDecimalYear if decimal else cm.SparseSHCoefficientsTimeDependent
                coefs.append(cls(nm, gh, times, **opts))
        return SphericalHarmomicGeomagneticModel(
            (cm.ComposedSHCoefficients if kind == "shc" else cm.CombinedSHCoefficients)(*coefs))
    part = parts[0]
    nm = np.array(part["nm"])
    shape = (len(nm), *part["shape"])
    gh, qs = np.array(part["gh"]).reshape(shape), np.array(part["qs"]).reshape(shape)

    def _mio(values, internal):
        return model_mio.DipoleMIOGeomagneticModel(
            SparseSHCoefficientsMIO(nm, values, part["ps"], is_internal=internal), north_pole=part["pole"],
            wolf_ratio=part["wolf"], height=part["height"])

    if kind == "mioi":
        return _mio(gh, True)
    degree = nm[:, 0].astype("f8")
    ratio = -(1.0 + part["height"]/model_mio.MIO_EARTH_RADIUS)
    above = qs*(degree/(degree + 1)*ratio**(2*degree + 1))[:, None, None, None]
    choice = rec.get("kw", {}).get("above_ionosphere")
    if choice is None:
        return model_mio.MIOPrimaryGeomagneticModel(_mio(qs, False), _mio(above, True), height=part["height"])
    return _mio(above, True) if choice else _mio(qs, False)


def values(model, maxdeg=None):
    out = ops.dump(model)
    if maxdeg:
        needs = {"f107": 100.0} if "f107" in getattr(model, "parameters", ()) else {}
        out["max"] = [ops.plain(model.eval(t, x, max_degree=maxdeg, **needs)) for t in (100.5, 6000.0) for x in ops._PROBE_X]
    return out


# ------------------------------------------------------------------ run

def run(sc, sim):
    env = sim.env
    env.put_mode = sc["put"]
    sim.osim.lib.sim_guard(1)
    sim.osim.fill(1, *[common.FILLS[i] for i in sc["fill"]])
    sim.count("fault:memory-fill")
    sim.osim.lib.sim_watch((sim.work + "/").encode())
    kept = []       # models and their values
    prev = None
    before = osmod.fds()
    for idx, step in enumerate(sc["steps"]):
        sim.at(idx)
        rec = step["m"]
        tokens = [token_of(step, num) for num in range(len(rec["files"]))]
        for (slot, _), token in zip(rec["files"], tokens):
            env.world.put(slot, token, sc["put"])
        for items in step["dmg"]:
            for item in items:
                sim.count("fault:damage-" + item[0])
        if step.get("mixed"):
            sim.count("fault:damage-mixed")
        changed = any(contents.content(token) != contents.content(ref[1]) for token, ref in zip(tokens, rec["files"]))
        if changed or step.get("mixed"):
            sim.count("nontrivial")
        env.frozen = True
        model, what = None, f"{step['dmg']} of {rec}"
        try:
            model = ops.build_model(env, rec)
            got = "ok"
        except Exception as exc:
            got = type(exc).__name__
        env.frozen = False
        sim.count("calls")
        sim.count("steps")
        if intact(step):
            verdict = "intact"
            sim.check({"op": "load", "m": rec}, ops.outcome(ops.dump, model) if model else ["err", got], kind="intact", at=idx)
        else:
            verdict, parts = reference(rec, tokens)
            sim.count(f"probe:{verdict}-{'accepted' if model else 'rejected'}")
            if verdict == "damaged" and model:
                sim.fail("accepted", f"a model is made in spite of {parts}: {what}", idx)
            elif verdict == "valid" and model:
                compare(sim, idx, step, model, parts, what)
            elif verdict == "valid" and (
                    all(contents.content(token).isascii() and plain_words(token) == plain_words(ref[1]) for token, ref in zip(tokens, rec["files"]))
                    or all(items in ([], [["novalid"]]) for items in step["dmg"]) and not step.get("mixed")):
                sim.count("probe:harmless")
                if ops.outcome(make, rec, parts)[0] == "ok":
                    sim.fail("rejected", f"{got} loading a file of the same values: {what}", idx)
            elif model and model.degree <= MAX_DEGREE:
                ops.outcome(values, model)
        if model and model.degree <= MAX_DEGREE:
            kept.append((idx, model, ops.outcome(values, model)))
        sim.sig(str([rec["m"], [num for num, items in enumerate(step["dmg"]) if items],
                     sorted({item[0] for items in step["dmg"] for item in items})[:2], verdict, got, prev]))
        prev = got
        model = None
        if sim.osim.open_files():
            sim.fail("open", f"{sim.osim.open_files()} files are left open after {what}", idx)
        after = osmod.fds()
        if len(after) > len(before):
            sim.fail("fds", f"descriptors left open after {what}", idx)
        if sim.viol:
            return
    sim.at(len(sc["steps"]))
    for idx, model, want in kept:   # not affected by the later loads
        dif = ops.same(ops.outcome(values, model), want)
        if dif:
            sim.fail("existing", f"{dif} of the model loaded in step {idx}: {sc['steps'][idx]}", idx)
            return
    sim.check(sc["other"], ops.outcome(ops.run, env, sc["other"]), kind="other", at=len(sc["steps"]))
    bad = sim.osim.get("sim_corruptions")
    if bad:
        sim.fail("corruption", f"{bad} memory blocks overrun, last {[sim.osim.get('sim_bad_' + k) for k in ('size', 'offset', 'caller')]}")


def compare(sim, idx, step, model, parts, what):
    """ Values of the model and of the one made of the independently read ones. """
    try:
        want = make(step["m"], parts)
    except Exception as exc:
        sim.count("probe:reference-" + type(exc).__name__)
        return
    info1, info2 = ops.info(model), ops.info(want)
    dif = ops.same(info1, info2)
    if not dif and degree_of(parts) <= MAX_DEGREE:
        maxdeg = step.get("maxdeg")
        got, ref = ops.outcome(values, model, maxdeg), ops.outcome(values, want, maxdeg)
        sim.count("probe:compared")
        if got[0] != ref[0]:
            dif = f"{got[0]} instead of {ref[0]} evaluating"
        elif got[0] == "ok":
            dif = ops.same(got[1], ref[1])
    if dif:
        sim.fail("changed", f"{dif}: the model differs from the content of the file, {what}", idx)


