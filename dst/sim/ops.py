"""Operations of the simulated clients: the public interface of the package.

An operation is a JSON dictionary; running it is a function of the operation,
of the model objects it refers to (by their construction recipe) and of the
files it names (slot and content).
"""
import io
import copy
import json
import os
import numpy as np
from . import contents
from .values import SPECIAL, layout, mk, rng_of

G0, G1, G2 = 0, 1, 2     # geodetic, geocentric spherical, geocentric Cartesian


# ------------------------------------------------------------------ world

class World:
    """ Files seen by the package. A slot (file name) holds one content at
    a time, putting another content replaces the file.
    """
    _stamp = 1_000_000_000_000_000_000   # ns
    # times between two changes; an immediately changed file is told apart by
    # a fraction of second only, a restored or copied one may get older, or may
    # have the time of the replaced one (which is kept under another name)
    _steps = (10_000_000_000, 4_000_000, 0, 250_000_000, 1_000_000_000, -3_600_000_000_000, 4_000_000, 0)

    def __init__(self, root):
        self.root = root
        self.stamp = self._stamp
        self.state = {}
        self.count = 0

    def path(self, slot):
        return os.path.join(self.root, slot)

    def put(self, slot, token, mode="rename"):
        """ Make the slot hold the content. """
        path = self.path(slot)
        if "/" in slot:
            os.makedirs(os.path.dirname(path), exist_ok=True)
        if self.state.get(slot) == token:
            return path
        self.count += 1
        step = self._steps[self.count % len(self._steps)]
        if mode != "rename" and step == 0:
            step = 4_000_000
        self.stamp += step
        if self.state.get(slot) == "dir":
            os.rmdir(path)
        if token == "missing":
            try:
                os.remove(path)
            except FileNotFoundError:
                pass
        elif token == "dir":
            self.put(slot, "missing")
            os.mkdir(path)
        else:
            data = contents.content(token)
            if mode == "rename" or not os.path.exists(path):
                with open(path + ".new", "wb") as file_out:
                    file_out.write(data)
                os.utime(path + ".new", ns=(self.stamp, self.stamp))
                if os.path.exists(path):
                    # the number of the file must not be used again
                    while os.path.exists(path + f".old{self.count}"):
                        self.count += len(self._steps)
                    os.link(path, path + f".old{self.count}")
                os.rename(path + ".new", path)
            else:
                with open(path, "r+b") as file_out:
                    file_out.write(data)
                    file_out.truncate()
                os.utime(path, ns=(self.stamp, self.stamp))
        self.state[slot] = token
        return path


class Env:
    """ Everything an operation may refer to. """

    def __init__(self, world, put_mode="rename"):
        self.world = world
        self.models = {}
        self.put_mode = put_mode
        self.frozen = False     # the files are set up in advance
        self.streams = []
        self.inputs = None      # list collecting the data the models are built from

    def file(self, ref):
        if isinstance(ref, dict):   # stream handed over instead of a file
            stream = make_stream(ref)
            self.streams.append(stream)
            return stream
        slot, token = ref
        if self.frozen:
            return self.world.path(slot)
        return self.world.put(slot, token, self.put_mode)

    def model(self, recipe):
        key = json.dumps(recipe, sort_keys=True)
        if key not in self.models:
            self.models[key] = build_model(self, recipe)
        return self.models[key]


def em():
    import eoxmagmod
    return eoxmagmod


# ----------------------------------------------------------------- models

class StubField:
    """ Deterministic analytic field source (also a component of composed
    models) which can be told to misbehave. Stands in for a user's model.
    """
    def __init__(self, spec):
        self.spec = spec
        self.parameters = tuple(spec.get("parameters", ("time", "location")))
        validity = spec.get("validity", ["-inf", "inf"])
        self.validity = tuple(float(v) for v in validity)
        self.calls = 0
        self.kept = {}

    def eval(self, time, location, input_coordinate_system=G1,
             output_coordinate_system=G1, scale=None, **options):
        self.calls += 1
        spec = self.spec
        mode = spec.get("fail")
        if mode and self.calls in mode["at"]:
            raise {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
                   "KeyError": KeyError, "Interrupt": KeyboardInterrupt}[mode.get("exc", "RuntimeError")]("injected")
        if spec.get("boom") is not None and options.get("boom") == spec["boom"]:
            raise RuntimeError("injected")
        time = np.asarray(time, dtype="f8")
        location = np.asarray(location, dtype="f8")
        ndim = max(time.ndim, location.ndim - 1)
        shape = time.shape if time.ndim == ndim else location.shape[:-1]
        tim = time.reshape(time.shape + (1,)*(ndim - time.ndim)) if time.ndim < ndim else time
        loc = location.reshape(location.shape[:-1] + (1,)*(ndim - location.ndim + 1) + (3,)) if location.ndim - 1 < ndim else location
        out = np.zeros((*shape, 3))
        amp = spec.get("amp", 1.0) * (1.0 + options.get("boost", 0.0))
        out[..., 0] = amp*(np.cos(loc[..., 0]*0.01) + 1e-4*tim)
        out[..., 1] = amp*(np.sin(loc[..., 1]*0.01) - 2e-4*tim)
        out[..., 2] = amp*(loc[..., 2]*1e-4 + 3e-4*tim)
        if scale is not None:
            out = out * np.asarray(scale)
        if "dt" in spec:        # other number types
            out = (out.tolist() if out.size else out) if spec["dt"] == "list" else np.rint(out).astype(spec["dt"]) if spec["dt"][0] == "i" else out.astype(spec["dt"])
        elif spec.get("keep"):    # the same field returned again, not a copy of it
            key = (out.shape, out.tobytes())
            return self.kept.setdefault(key, out) if key in self.kept or len(self.kept) < 8 else out
        return out


def build_coef(env, spec):
    from eoxmagmod.magnetic_model import coefficients as cm
    kind = spec["c"]
    if kind in ("comp", "comb"):
        if spec.get("same"):    # equal parts being one and the same object
            made = {}
            items = [made[key] if key in made else made.setdefault(key, build_coef(env, item))
                     for item, key in ((item, json.dumps(item, sort_keys=True)) for item in spec["items"])]
        else:
            items = [build_coef(env, item) for item in spec["items"]]
        return (cm.ComposedSHCoefficients if kind == "comp" else cm.CombinedSHCoefficients)(*items)
    if kind == "shc":
        from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc
        return load_coeff_shc(env.file(spec["file"]), **spec.get("kw", {}))
    nmv, gh, times = coef_arrays(spec)
    if env.inputs is not None:
        env.inputs.append((nmv, gh, times))
    kwargs = {}
    if "internal" in spec:
        kwargs["is_internal"] = spec["internal"]
    for key in ("validity_start", "validity_end"):
        if key in spec:
            kwargs[key] = spec[key]
    if kind == "const":
        return cm.SparseSHCoefficientsConstant(nmv, gh[:, 0], **kwargs)
    if "order" in spec:
        kwargs["spline_order"] = spec["order"]
    if kind == "td":
        return cm.SparseSHCoefficientsTimeDependent(nmv, gh, times, **kwargs)
    if kind == "dy":
        return cm.SparseSHCoefficientsTimeDependentDecimalYear(nmv, gh, times, **kwargs)
    raise KeyError(kind)


def coef_arrays(spec):
    """ Arrays of a synthetic coefficient set. """
    rng = rng_of(spec.get("seed", 0), 23)
    nm = np.array(contents.nm_pairs(spec.get("nmin", 1), spec.get("nmax", 3)))
    if spec.get("perm"):
        nm = nm[rng.permutation(len(nm))]
    if spec.get("drop"):
        nm = nm[:max(1, len(nm) - spec["drop"])]
    times = np.array(spec.get("times", [0.0]), dtype="f8")
    amp = 30000.0 / (nm[:, :1] ** 2.2) if (nm[:, 0] > 0).all() else 1000.0/(1 + nm[:, :1])
    gh = rng.normal(size=(len(nm), 1)) * amp
    gh = gh + rng.normal(size=(len(nm), len(times))).cumsum(axis=1) * amp * 0.02
    if spec.get("tperm"):
        order = rng.permutation(len(times))
        times, gh = times[order], gh[:, order]
    if spec.get("layF"):
        gh = np.asfortranarray(gh)
    if spec.get("i4"):
        nm = nm.astype("i4")
    if "tx" in spec:        # invalid times, indices, and coefficients
        times = np.array([SPECIAL.get(v, v) for v in spec["tx"]], dtype="f8")
    for idx, col, value in spec.get("nmx", ()):
        nm[idx % len(nm), col] = value
    for idx, col, value in spec.get("gx", ()):
        gh[idx % len(gh), col % max(1, gh.shape[1])] = SPECIAL.get(value, value)
    return nm, gh, times


MMA = ["2c_internal", "2c_external", "2f_geo_internal", "2f_geo_external", "2f_sm_internal", "2f_sm_external"]


def build_model(env, recipe):
    pkg = em()
    kind = recipe["m"]
    if kind == "shc":
        return pkg.load_model_shc(*[env.file(f) for f in recipe["files"]], **recipe.get("kw", {}))
    if kind == "shcc":
        return pkg.load_model_shc_combined(*[env.file(f) for f in recipe["files"]], **recipe.get("kw", {}))
    if kind == "igrf":
        return pkg.load_model_igrf(env.file(recipe["files"][0]))
    if kind == "wmm":
        return pkg.load_model_wmm(env.file(recipe["files"][0]))
    if kind == "emm":
        return pkg.load_model_emm(*[env.file(f) for f in recipe["files"]])
    if kind == "mma":
        return getattr(pkg, "load_model_swarm_mma_" + recipe["w"])(*[env.file(f) for f in recipe["files"]])
    if kind == "mioi":
        return pkg.load_model_swarm_mio_internal(env.file(recipe["files"][0]))
    if kind == "mioe":
        return pkg.load_model_swarm_mio_external(env.file(recipe["files"][0]), **recipe.get("kw", {}))
    if kind == "mioc":
        from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
        from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel
        spec = recipe["c"]
        ab, nm, smin, pmin, _, _ = _f2fs({"set": spec})
        if not spec.get("i4"):
            nm = nm.astype("i8")
        ab = np.asfortranarray(ab) if spec.get("layF") else ab
        if env.inputs is not None:
            env.inputs.append((nm, ab))
        kwargs = {key: spec[key] for key in ("validity_start", "validity_end") if key in spec}
        other = {"wolf_ratio": recipe["wolf"]} if "wolf" in recipe else {}
        return DipoleMIOGeomagneticModel(
            SparseSHCoefficientsMIO(nm, ab, (pmin, pmin + spec["n2"] - 1, smin, smin + spec["n1"] - 1),
                                    is_internal=recipe.get("internal", True), **kwargs),
            north_pole=tuple(recipe["pole"]), **other)
    if kind == "coef":
        from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel
        return SphericalHarmomicGeomagneticModel(build_coef(env, recipe["c"]))
    if kind == "dip":
        from eoxmagmod.magnetic_model.model import DipoleSphericalHarmomicGeomagneticModel
        return DipoleSphericalHarmomicGeomagneticModel(build_coef(env, recipe["c"]), tuple(recipe["pole"]))
    if kind == "stub":
        return StubField(recipe["spec"])
    if kind == "composed" and recipe.get("how") == "init":
        return pkg.ComposedGeomagneticModel(*[env.model(item) for item, _, _ in recipe["items"]])
    if kind == "composed":
        model = pkg.ComposedGeomagneticModel()
        for item, scale, params in recipe["items"]:
            scale = copy.copy(scale) if not isinstance(scale, dict) else mk(scale)
            params = {k: mk(v) for k, v in params.items()}
            if env.inputs is not None:
                env.inputs.append((scale, params))
            model.push(env.model(item), scale, **params)
        return model
    raise KeyError(kind)


# -------------------------------------------------------- point-wise functions

def _pym():
    from eoxmagmod import _pymm
    return _pymm


def _coefsets(par):
    """ Coefficient sets of shevaltemp. """
    out = []
    for spec in par["sets"]:
        nm, gh, times = coef_arrays(spec)
        if spec.get("lay"):
            gh = layout(gh, spec["lay"])
        if spec.get("nmi8"):
            nm = nm.astype("i8")
        else:
            nm = nm.astype("i4")
        out.append((times, gh, nm, spec.get("order", 2)))
    return out


def _f2fs(par):
    spec = par["set"]
    nm = np.array(contents.nm_pairs(1, spec["nmax"]), dtype="i4")
    rng = rng_of(spec["seed"], 29)
    ab = rng.normal(size=(len(nm), spec["n1"], spec["n2"], 2)) * (1000.0/nm[:, 0]**2)[:, None, None, None]
    for idx, col, value in spec.get("nmx", ()):
        nm[idx % len(nm), col] = value
    if spec.get("lay"):
        ab = layout(ab, spec["lay"])
    return (ab, nm, spec["m1"], spec["m2"], spec["sc1"], spec["sc2"])


def _fullcoef(par):
    nmax = par["nmax"]
    rng = rng_of(par["seed"], 31)
    size = (nmax + 1)*(nmax + 2)//2
    return rng.normal(size=(size, 2)) * 1000.0


def _scales(par):
    out = {}
    for key in ("scale_potential", "scale_gradient"):
        if key in par:
            out[key] = mk(par[key])
    return out


# name -> (argument kinds, function(arguments, parameters) -> outputs, arguments
#          which can be given once for all samples, number of core dimensions of outputs)
PW = {}


def pw(name, args, scalars=(), core=0, prefix=()):
    def _wrap(func):
        PW[name] = {"args": args, "f": func, "scalars": scalars, "core": core, "prefix": prefix}
        return func
    return _wrap


def _cin(par):
    return {G0: "c0", G1: "c1", G2: "c2"}[par["ict"]]


@pw("convert", {"x": _cin}, core=1)
def _(a, p):
    return em().convert(a["x"], p["ict"], p["oct"])


@pw("vrot_sph2geod", {"v": "vec", "d": "dlat"}, scalars=("d",), core=1)
def _(a, p):
    return em().vrot_sph2geod(a["v"], a["d"])


@pw("vrot_sph2cart", {"v": "vec", "a": "lat", "o": "lon"}, scalars=("a", "o"), core=1)
def _(a, p):
    return em().vrot_sph2cart(a["v"], a["a"], a["o"])


@pw("vrot_cart2sph", {"v": "vec", "a": "lat", "o": "lon"}, scalars=("a", "o"), core=1)
def _(a, p):
    return em().vrot_cart2sph(a["v"], a["a"], a["o"])


@pw("vrotate", {"v": "vec", "x": _cin, "y": lambda p: {0: "c0", 1: "c1", 2: "c2"}[p["oct"]]}, core=1)
def _(a, p):
    return em().vrotate(a["v"], a["x"], a["y"], p["ict"], p["oct"])


@pw("vnorm", {"v": "vec"})
def _(a, p):
    return em().vnorm(a["v"])


@pw("vincdecnorm", {"v": "vec"})
def _(a, p):
    return em().vincdecnorm(a["v"])


@pw("legendre", {"a": "lat"}, core=1)
def _(a, p):
    return em().legendre(a["a"], p["degree"])


@pw("loncossin", {"o": "lon"}, core=2)
def _(a, p):
    return em().loncossin(a["o"], p["degree"], *([p["fast"]] if "fast" in p else []))


@pw("relradpow", {"r": "rad"}, core=1)
def _(a, p):
    return em().relradpow(a["r"], p["degree"], **{k: p[k] for k in ("reference_radius", "is_internal") if k in p})


_SPH = {"r": "rad", "c": "coef", "lp": "leg", "rp": "rrp", "lc": "lcs"}


@pw("spharpot", _SPH, scalars=("r", "c", "lp", "rp", "lc"), prefix=("r", "c", "lp", "rp", "lc"))
def _(a, p):
    return em().spharpot(a["r"], a["c"], a["lp"], a["rp"], a["lc"], **{k: p[k] for k in ("degree",) if k in p})


@pw("sphargrd", {"r": "lat", "c": "coef", "lp": "leg", "dp": "leg", "rp": "rrp", "lc": "lcs"},
    scalars=("r", "c", "lp", "dp", "rp", "lc"), core=1, prefix=("r", "c", "lp", "dp", "rp", "lc"))
def _(a, p):
    return em().sphargrd(a["r"], a["c"], a["lp"], a["dp"], a["rp"], a["lc"],
                         **{k: p[k] for k in ("degree", "is_internal") if k in p})


_CT = {"ict": "coord_type_in", "oct": "coord_type_out", "mode": "mode", "is_internal": "is_internal", "degree": "degree"}


def _ctk(p, *skip):
    return {name: p[key] for key, name in _CT.items() if key in p and key not in skip}


@pw("sheval", {"x": _cin, "c": "coef"}, scalars=("x", "c"), core=1, prefix=("x", "c"))
def _(a, p):
    return em().sheval(a["x"], a["c"], **_ctk(p), **_scales(p))


@pw("shevaltemp", {"t": "mjd", "x": _cin}, scalars=("t", "x"), core=1, prefix=("t", "x"))
def _(a, p):
    return _pym().shevaltemp(a["t"], a["x"], _coefsets(p), **_ctk(p), **_scales(p))


@pw("sheval2dfs", {"t": "unit", "u": "hour", "x": _cin}, scalars=("t", "u", "x"), core=1, prefix=("t", "u", "x"))
def _(a, p):
    return _pym().sheval2dfs(a["t"], a["u"], a["x"], _f2fs(p), **_ctk(p), **_scales(p))


@pw("interp", {"t": "mjd"}, core=1)
def _(a, p):
    _, gh, times = coef_arrays(p["set"])
    return _pym().interp(a["t"], times, gh, **{k: p[k] for k in ("kind", "extrapolate") if k in p})


@pw("fourier2d", {"t": "unit", "u": "hour"}, core=1)
def _(a, p):
    ab, _, m1, m2, s1, s2 = _f2fs(p)
    return _pym().fourier2d(a["t"], a["u"], ab, m1, m2, s1, s2)


@pw("bisect", {"t": "mjd"})
def _(a, p):
    return _pym().bisect(np.array([SPECIAL.get(v, v) for v in p["nodes"]], dtype="f8"), a["t"], p["side"])


@pw("qd", {"a": "lat", "o": "lon", "r": "rad", "t": "dy"})
def _(a, p):
    func = em().eval_qdlatlon_with_base_vectors if p.get("base") else em().eval_qdlatlon
    if p.get("fname") is None:
        return func(a["a"], a["o"], a["r"], a["t"])
    return func(a["a"], a["o"], a["r"], a["t"], p["fname"])


@pw("mlt", {"o": "lon", "t": "mjd"})
def _(a, p):
    return em().eval_mlt(a["o"], a["t"])


@pw("subsol", {"t": "mjd"})
def _(a, p):
    return em().eval_subsol(a["t"])


@pw("sunpos", {"t": "mjd", "a": "lat", "o": "lon", "r": "rad", "d": "sec"}, scalars=("t", "a", "o", "r", "d"))
def _(a, p):
    return em().sunpos(a["t"], a["a"], a["o"], a["r"], a["d"])


@pw("sunpos_original", {"t": "mjd", "a": "lat", "o": "lon", "r": "rad", "d": "sec", "p": "unit", "q": "hour"},
    scalars=("t", "a", "o", "r", "d", "p", "q"))
def _(a, p):
    return em().sunpos_original(a["t"], a["a"], a["o"], a["r"], a["d"], a["p"], a["q"])


for _name, _kind in (("decimal_year_to_mjd2000", "dy"), ("mjd2000_to_decimal_year", "mjd"),
                     ("mjd2000_to_year_fraction", "mjd"), ("decimal_year_to_mjd2000_simple", "dy"),
                     ("mjd2000_to_decimal_year_simple", "mjd"), ("mjd2000_to_year_fraction_simple", "mjd")):
    def _tfun(a, p, name=_name):
        from eoxmagmod import time_util
        return getattr(time_util, name)(a["t"])
    pw(_name, {"t": _kind})(_tfun)


@pw("mut", {"t": "mjd"})
def _(a, p):
    return em().mjd2000_to_magnetic_universal_time(a["t"], *p["pole"])


@pw("mut_sol", {"t": "mjd", "a": "lat", "o": "lon"}, scalars=("a", "o"))
def _(a, p):
    return em().mjd2000_to_magnetic_universal_time(a["t"], *p["pole"], a["a"], a["o"])


@pw("to_dipole", {"x": _cin}, core=1)
def _(a, p):
    return em().convert_to_dipole(a["x"], *p["pole"], p["ict"])


@pw("vrot_from_dipole", {"v": "vec", "a": "lat", "o": "lon", "b": "lat", "p": "lon"},
    scalars=("a", "o", "b", "p"), core=1)
def _(a, p):
    if p["oct"] == G2:
        return em().vrot_from_dipole(a["v"], *p["pole"], a["a"], a["o"])
    return em().vrot_from_dipole(a["v"], *p["pole"], a["a"], a["o"], a["b"], a["p"], p["oct"])


@pw("sheval_dipole", {"x": _cin}, core=1)
def _(a, p):
    return em().sheval_dipole(a["x"], _fullcoef(p["coef"]), *p["pole"], **_ctk(p), **_scales(p))


def arg_tail(kind, par):
    """ Core dimensions of the special argument kinds. """
    deg = par.get("adeg", 3)
    return {"coef": ((deg + 1)*(deg + 2)//2, 2), "leg": ((deg + 1)*(deg + 2)//2,),
            "rrp": (deg + 1,), "lcs": (deg + 1, 2)}.get(kind)


def arg_kind(name, arg, par):
    kind = PW[name]["args"][arg]
    return kind(par) if callable(kind) else kind


# --------------------------------------------------------------- operations

def model_options(opt):
    return {key: mk(value) for key, value in opt.items()}


def build_args(env, oper):
    """ Arguments of the point-wise functions and of the model evaluation
    as they are passed to the package.
    """
    if oper["op"] == "pw":
        return {name: mk(spec) for name, spec in oper["a"].items()}
    if oper["op"] in ("eval", "ceval"):
        return {"t": mk(oper["t"]), "x": mk(oper["x"]) if "x" in oper else None,
                "opt": model_options(oper.get("opt", {}))}
    if oper["op"] == "trace":
        return {"x": mk(oper["x"]), "topt": dict(oper.get("topt", {})), "mopt": model_options(oper.get("mopt", {}))}
    return {}


def run_pw(env, oper, args):
    par = dict(oper.get("p", {}))
    if "file" in par:
        par["fname"] = env.file(par["file"])
    return PW[oper["f"]]["f"](args, par)


def run(env, oper, args=None):
    """ Execute the operation, returns its raw result. """
    kind = oper["op"]
    if args is None:
        args = build_args(env, oper)
    if kind == "pw":
        return run_pw(env, oper, args)
    if kind == "eval":
        model = env.model(oper["m"])
        kwargs = {}
        if "ict" in oper:
            kwargs["input_coordinate_system"] = oper["ict"]
        if "oct" in oper:
            kwargs["output_coordinate_system"] = oper["oct"]
        return model.eval(args["t"], args["x"], **kwargs, **args["opt"])
    if kind == "info":
        return info(env.model(oper["m"]))
    if kind == "load":
        return dump(build_model(env, oper["m"]))
    if kind == "ceval":
        coef = env_coef(env, oper["c"])
        return coef(args["t"], **args["opt"])
    if kind == "trace":
        return em().trace_field_line(
            env.model(oper["m"]), oper["t"], args["x"], oper.get("ict", 1), oper.get("oct", 1),
            args["topt"], args["mopt"])
    if kind == "parse":
        return run_parse(env, oper)
    if kind == "dt":
        from datetime import datetime
        from eoxmagmod.time_util import datetime_to_decimal_year
        return datetime_to_decimal_year(datetime(*oper["v"]))
    if kind == "rotmat":
        return em().get_dipole_rotation_matrix(*oper["v"])
    raise KeyError(kind)


def env_coef(env, spec):
    key = "coef:" + json.dumps(spec, sort_keys=True)
    if key not in env.models:
        env.models[key] = build_coef(env, spec)
    return env.models[key]


PARSERS = {
    "shc": ("parser_shc", "parse_shc_file"), "shch": ("parser_shc", "parse_shc_header"),
    "igrf": ("parser_igrf", "parse_igrf_file"), "wmm": ("parser_wmm", "parse_wmm_file"),
    "emm": ("parser_emm", "parse_emm_file"), "mio": ("parser_mio", "parse_swarm_mio_file"),
}


def run_parse(env, oper, stream=None):
    """ Parse an open stream, handed over in the given way. """
    import importlib
    mod, name = PARSERS[oper["fmt"]]
    func = getattr(importlib.import_module("eoxmagmod.magnetic_model." + mod), name)
    return func(make_stream(oper) if stream is None else stream)


class FaultyStream:
    """ Text stream (iterator of lines) which fails at the given line. """
    def __init__(self, lines, fail_at, exc=OSError):
        self.lines, self.fail_at, self.exc, self.pos = lines, fail_at, exc, 0
        self.raised = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_at is not None and self.pos == self.fail_at:
            self.pos += 1
            self.raised = True
            raise self.exc("injected")
        if self.pos >= len(self.lines):
            raise StopIteration
        self.pos += 1
        return self.lines[self.pos - 1]


class RawChunks(io.RawIOBase):
    """ Raw stream delivering short reads. """
    def __init__(self, data, sizes):
        self.data, self.sizes, self.pos, self.idx = data, sizes, 0, 0

    def readable(self):
        return True

    def readinto(self, buf):
        size = self.sizes[self.idx % len(self.sizes)]
        self.idx += 1
        chunk = self.data[self.pos:self.pos + max(1, min(size, len(buf)))]
        self.pos += len(chunk)
        buf[:len(chunk)] = chunk
        return len(chunk)


def make_stream(oper):
    data = contents.content(oper["content"])
    how = oper.get("how", "stringio")
    text = data.decode("ascii")
    if how == "stringio":
        return io.StringIO(text)
    if how == "list":
        return iter(text.splitlines())
    if how == "keep":
        return iter(text.splitlines(keepends=True))
    if how == "crlf":
        return io.StringIO(text.replace("\r\n", "\n").replace("\n", "\r\n"), newline=None)
    if how == "crlfkeep":
        return iter(text.replace("\r\n", "\n").replace("\n", "\r\n").splitlines(keepends=True))
    if how == "gen":
        return (line for line in text.splitlines(keepends=True))
    if how == "faulty":
        return FaultyStream(text.splitlines(keepends=True), oper.get("fail_at"))
    if how == "raw":
        return io.TextIOWrapper(io.BufferedReader(RawChunks(data, oper.get("sizes", [7])), oper.get("buf", 16)), encoding="ascii")
    raise KeyError(how)


# ----------------------------------------------------------- results

def plain(obj, depth=0):
    """ Result in a plain comparable form (arrays copied). """
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return [plain(item, depth + 1) for item in obj.ravel().tolist()]
        return np.array(obj)
    if isinstance(obj, (bool, int, float, complex, str, bytes, type(None))):
        return obj
    if isinstance(obj, np.generic):
        return np.array(obj)
    if isinstance(obj, dict):
        return {str(key): plain(value, depth + 1) for key, value in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(item, depth + 1) for item in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted(str(item) for item in obj)
    return f"<{type(obj).__name__}>"


def info(model):
    """ Observable description of a model. """
    out = {}
    for key in ("validity", "parameters", "degree", "min_degree"):
        try:
            value = getattr(model, key)
        except AttributeError:
            continue
        if key == "validity":
            value = [float(v) for v in value]
        elif key == "parameters":
            value = [str(v) for v in value]
        else:
            value = float(value)
        out[key] = value
    return out


_PROBE_T = [-2000.0, 100.5, 2500.25, 4000.0, 5600.0, 6550.0, 7300.0]
_PROBE_X = [[12.0, 30.0, 6500.0], [-55.0, -120.0, 6900.0]]


def dump(model):
    """ Values which identify the loaded model: its description and its field
    on a fixed probe.
    """
    out = {"info": info(model)}
    needs = {}
    if "f107" in getattr(model, "parameters", ()):
        needs["f107"] = 100.0
    start, end = out["info"]["validity"]
    times = list(_PROBE_T)
    if np.isfinite(start) and np.isfinite(end):
        times += [start, 0.5*(start + end), 0.25*start + 0.75*end, end]
    out["field"] = [plain(model.eval(t, loc, **needs)) for t in times for loc in _PROBE_X]
    return out


# called as long as a reported exception (and all frames it refers to) lives
on_error = None


def outcome(func, *args):
    """ Run and normalise: ["ok", value] or ["err", class name]. """
    try:
        value = func(*args)
    except Exception as exc:
        if on_error:
            on_error()
        return ["err", error_kind(exc)]
    return ["ok", plain(value)]


def error_kind(exc):
    return type(exc).__name__


ANGLES = {"convert", "vincdecnorm", "qd", "subsol", "sunpos", "sunpos_original", "to_dipole"}


def same(first, second, rtol=1e-10, atol=1e-10, angles=False):
    """ Compare two normalised results, returns None or the difference. """
    if isinstance(first, np.ndarray) or isinstance(second, np.ndarray):
        try:
            arr1, arr2 = np.asarray(first), np.asarray(second)
        except Exception:
            return "type"
        if arr1.shape != arr2.shape:
            return f"shape {arr1.shape} vs {arr2.shape}"
        if arr1.dtype.kind not in "fiub" or arr2.dtype.kind not in "fiub":
            return None if arr1.dtype == arr2.dtype and arr1.tobytes() == arr2.tobytes() else "value"
        if arr1.size == 0:
            return None
        val1, val2 = arr1.astype("f8"), arr2.astype("f8")
        nan1, nan2 = np.isnan(val1), np.isnan(val2)
        if (nan1 != nan2).any():
            return f"not-a-number at {np.argwhere(nan1 != nan2)[0].tolist()}"
        inf1, inf2 = np.isinf(val1), np.isinf(val2)
        if (inf1 != inf2).any() or (val1[inf1] != val2[inf1]).any():
            return "infinity"
        fin = ~(nan1 | inf1)
        if not fin.any():
            return None
        top = float(np.max(np.abs(val2[fin])))
        with np.errstate(all="ignore"):
            dif = np.abs(val1 - val2)
            if angles:
                dif = np.minimum(dif, np.abs(dif - 360.0))
            bad = fin & (dif > rtol*np.abs(val2) + atol*top)
        if bad.any():
            idx = np.argwhere(bad)[0].tolist()
            return f"value at {idx}: {val1[tuple(idx)]!r} vs {val2[tuple(idx)]!r}"
        return None
    if isinstance(first, dict) and isinstance(second, dict):
        if sorted(first) != sorted(second):
            return f"keys {sorted(first)} vs {sorted(second)}"
        for key in first:
            dif = same(first[key], second[key], rtol, atol, angles)
            if dif:
                return f"{key}: {dif}"
        return None
    if isinstance(first, list) and isinstance(second, list):
        if len(first) != len(second):
            return f"length {len(first)} vs {len(second)}"
        for idx, (val1, val2) in enumerate(zip(first, second)):
            dif = same(val1, val2, rtol, atol, angles)
            if dif:
                return f"[{idx}] {dif}"
        return None
    if isinstance(first, float) or isinstance(second, float):
        try:
            return same(np.array(float(first)), np.array(float(second)), rtol, atol, angles)
        except (TypeError, ValueError):
            return f"{first!r} vs {second!r}"
    return None if first == second else f"{first!r} vs {second!r}"


def op_angles(oper):
    return oper["op"] == "pw" and oper["f"] in ANGLES
