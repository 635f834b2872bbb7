"""Seeded generation of operations (pure functions of the generator state)."""
import copy
import random

G0, G1, G2 = 0, 1, 2
CIN = {0: "c0", 1: "c1", 2: "c2"}
LIMITS = {"mjd": (-3000.0, 9000.0)}

PW_NAMES = [
    "convert", "vrot_sph2geod", "vrot_sph2cart", "vrot_cart2sph", "vrotate", "vnorm", "vincdecnorm",
    "legendre", "loncossin", "relradpow", "spharpot", "sphargrd", "sheval", "shevaltemp", "sheval2dfs",
    "interp", "fourier2d", "bisect", "qd", "mlt", "subsol", "sunpos", "sunpos_original",
    "decimal_year_to_mjd2000", "mjd2000_to_decimal_year", "mjd2000_to_year_fraction",
    "decimal_year_to_mjd2000_simple", "mjd2000_to_decimal_year_simple", "mjd2000_to_year_fraction_simple",
    "mut", "mut_sol", "to_dipole", "vrot_from_dipole", "sheval_dipole",
]
HEAVY = ["sheval", "shevaltemp", "sheval2dfs", "qd", "qd", "qd", "interp", "fourier2d", "mlt", "subsol", "sunpos"]
# arguments of the functions: kept in step with ops.PW
PW_ARGS = {
    "convert": ["x"], "vrot_sph2geod": ["v", "d"], "vrot_sph2cart": ["v", "a", "o"], "vrot_cart2sph": ["v", "a", "o"],
    "vrotate": ["v", "x", "y"], "vnorm": ["v"], "vincdecnorm": ["v"], "legendre": ["a"], "loncossin": ["o"],
    "relradpow": ["r"], "spharpot": ["r", "c", "lp", "rp", "lc"], "sphargrd": ["r", "c", "lp", "dp", "rp", "lc"],
    "sheval": ["x", "c"], "shevaltemp": ["t", "x"], "sheval2dfs": ["t", "u", "x"], "interp": ["t"],
    "fourier2d": ["t", "u"], "bisect": ["t"], "qd": ["a", "o", "r", "t"], "mlt": ["o", "t"], "subsol": ["t"],
    "sunpos": ["t", "a", "o", "r", "d"], "sunpos_original": ["t", "a", "o", "r", "d", "p", "q"],
    "mut": ["t"], "mut_sol": ["t", "a", "o"], "to_dipole": ["x"],
    "vrot_from_dipole": ["v", "a", "o", "b", "p"], "sheval_dipole": ["x"],
}


class Gen:
    """ Generator of operations. """

    def __init__(self, rng, slots=True, big=0.03, maxn=40, apex_big=0.25):
        self.rng = rng
        self.r = rng.random
        self.use_slots = slots
        self.big = big
        self.maxn = maxn
        self.apex_big = apex_big
        self.models = []        # recently used recipes
        self.nslots = rng.randint(1, 4)

    # -- basic values
    def seed(self):
        return self.rng.randrange(1 << 30)

    def pick(self, *items):
        return self.rng.choice(items)

    def shape(self, zero=0.04):
        x = self.r()
        if x < 0.18:
            return []
        if x < 0.18 + zero:
            return self.pick([0], [0], [2, 0], [0, 3])
        if x < 0.30:
            return [1]
        if x < 0.72:
            return [self.rng.randint(2, 7)]
        if x < 0.88:
            return [self.rng.randint(1, 4), self.rng.randint(1, 4)]
        if x < 0.92:
            return [self.rng.randint(1, 3), self.rng.randint(1, 3), self.rng.randint(1, 3)]
        if x < 0.98:
            return [self.rng.randint(8, self.maxn)]
        return [self.rng.randint(self.maxn, self.maxn*6)]

    def lay(self, p=0.25):
        if self.r() < p:
            return self.pick("F", "T", "step", "neg", "neglast", "off", "swap", "ro", "list", "tuple")
        return "C"

    def arr(self, kind, shape, **extra):
        spec = {"k": kind, "s": self.seed(), "sh": list(shape)}
        lay = self.lay()
        if lay != "C":
            spec["l"] = lay
        if not shape and self.r() < 0.4:
            spec["py"] = 1
            if lay not in ("C",):
                spec.pop("l", None)
        spec.update(extra)
        if shape and "u" not in spec and kind not in ("hour", "unit") and self.r() < 0.08:
            spec["near"] = self.pick(1e-12, 1e-9, 1e-7, 1e-5)
        elif "u" not in spec and self.r() < 0.1:
            spec["snap"] = self.pick(0.2, 0.5, 1.0)
        if spec.get("py") and (kind in ("c0", "c1", "c2", "vec") or extra.get("tail")):
            spec.pop("py")
        return spec

    def coords(self, ict, shape):
        spec = self.arr(CIN[ict], shape)
        x = self.r()
        if x < 0.12:
            spec["neigh"] = self.pick(0, 1, 2)
        elif x < 0.17:
            spec["rep"] = self.rng.randint(1, 3)
        return spec

    def ct(self):
        return self.pick(0, 1, 2)

    # -- coefficient sets
    def cspec(self, depth=0, internal=None, kinds=("td", "td", "dy", "const")):
        kind = self.pick(*kinds)
        spec = {"c": kind, "seed": self.seed(), "nmin": self.pick(1, 1, 1, 1, 2), "nmax": self.rng.randint(2, 5)}
        if internal is not None:
            spec["internal"] = internal
        if kind != "const":
            nt = self.rng.randint(2, 6)
            if kind == "td":
                t0 = self.rng.uniform(-2500, 5000)
                times = [t0]
                for _ in range(nt - 1):
                    times.append(times[-1] + self.rng.uniform(50, 1200))
                spec["times"] = [round(t, 3) for t in times]
            else:
                t0 = self.pick(1995, 2000, 2005, 2010)
                spec["times"] = [t0 + i*self.pick(2.5, 5.0) for i in range(1)] + []
                step = self.pick(1.0, 2.5, 5.0)
                spec["times"] = [t0 + i*step for i in range(nt)]
            if self.r() < 0.2:
                spec["order"] = 1
            if self.r() < 0.15:
                spec["tperm"] = 1
        if self.r() < 0.15:
            spec["perm"] = 1
        if self.r() < 0.1:
            spec["layF"] = 1
        if self.r() < 0.1:
            spec["drop"] = self.rng.randint(1, 3)
        return spec

    # -- model recipes
    def slot(self, ext):
        return f"s{self.rng.randrange(self.nslots)}.{ext}"

    def shc_token(self):
        x = self.r()
        if x < self.big:
            return self.pick("chaos7", "chaos8", "mf7", "sifm", "chaos7p", "chaos8p")
        if x < 0.25:
            return self.pick("igrf12", "igrf13", "igrf14", "chaos7p", "chaos8p")
        seed = self.rng.randrange(6)
        nt = self.pick(1, 2, 3, 4)
        order = 1 if nt == 1 else 2
        return f"shc:{seed}:{self.pick(1, 1, 2)}:{self.rng.randint(2, 5)}:{nt}:{order}:{self.pick(1998.0, 2000.0, 2010.0)}:{self.pick(1.0, 2.5, 5.0)}"

    def recipe(self, kinds=None, depth=0):
        if self.models and self.r() < 0.5 and kinds is None:
            return self.rng.choice(self.models)
        kind = self.pick(*(kinds or (
            "shc", "shc", "shcc", "igrf", "wmm", "emm", "coef", "coef", "coef", "ccomp", "ccomb", "dip",
            "mioi", "mioe", "mioc", "mma", "composed", "composed")))
        rec = self._recipe(kind, depth)
        self.models.append(rec)
        if len(self.models) > 6:
            self.models.pop(0)
        return rec

    def _recipe(self, kind, depth):
        rng = self.rng
        if kind == "shc":
            nfil = self.pick(1, 1, 1, 2)
            if nfil == 1:
                rec = {"m": "shc", "files": [[self.slot("shc"), self.shc_token()]]}
            else:
                # adjacent time spans
                seed, nmax = rng.randrange(4), rng.randint(2, 4)
                rec = {"m": "shc", "files": [
                    ["x0.shc", f"shc:{seed}:1:{nmax}:3:2:2000.0:2.5"],
                    ["x1.shc", f"shc:{seed + 1}:1:{rng.randint(2, 4)}:3:2:2005.0:2.5"]]}
            kw = {}
            if self.r() < 0.3:
                kw["interpolate_in_decimal_years"] = True
            if nfil == 1 and self.r() < 0.1:
                kw["validity_start"] = 1990.0
                kw["validity_end"] = 2030.0
            if kw:
                rec["kw"] = kw
            return rec
        if kind == "shcc":
            return {"m": "shcc", "files": [
                ["y0.shc", f"shc:{rng.randrange(4)}:1:{rng.randint(2, 4)}:4:2:2000.0:2.5"],
                ["y1.shc", f"shc:{2*rng.randrange(4)}:{rng.randint(1, 4)}:{rng.randint(4, 6)}:1:1:2010.0:1.0"]]}
        if kind == "igrf":
            return {"m": "igrf", "files": [[self.slot("igrf"), self.pick("igrf11", *[f"igrf:{i}:3:{n}" for i in range(3) for n in (2, 4)])]]}
        if kind == "wmm":
            return {"m": "wmm", "files": [[self.slot("cof"), self.pick("wmm15", "wmm:0", "wmm:1", "wmm:2:4:2010.0")]]}
        if kind == "emm":
            k = rng.randrange(3)
            return {"m": "emm", "files": [[self.slot("emms"), f"emms:{k}:{self.pick(4, 4, 5)}"], [self.slot("emmv"), f"emmv:{k}"]]}
        if kind == "coef":
            return {"m": "coef", "c": self.cspec(internal=self.pick(None, None, True, False))}
        if kind == "ccomp":
            return {"m": "coef", "c": self.ccomp()}
        if kind == "ccomb":
            internal = self.pick(True, False)
            if self.r() < 0.45:     # different time scales are evaluated in another way
                items = [self.cspec(internal=internal, kinds=("dy",)), self.cspec(internal=internal, kinds=("td",))]
                years, times = items[0]["times"], items[1]["times"]
                start = (years[0] - 2000.0)*365.25 + rng.uniform(-300, 40)
                end = (years[-1] - 2000.0)*365.25 + rng.uniform(-40, 300)
                slope = max(50.0, end - start)/(times[-1] - times[0])
                items[1]["times"] = [round(start + slope*(t - times[0]), 3) for t in times]
                if self.r() < 0.4:
                    items.append(self.cspec(internal=internal, kinds=("const",)))
                rng.shuffle(items)
                if len(items) == 3 and self.r() < 0.5:
                    items = [items[0], {"c": "comb", "items": items[1:]}]
                return {"m": "coef", "c": {"c": "comb", "items": items}}
            items = [self.cspec(internal=internal) for _ in range(self.rng.randint(2, 3))]
            base = items[0].get("times")
            for item in items[1:]:  # common validity
                if item["c"] == "td" and items[0]["c"] == "td":
                    shift = base[0] - item["times"][0] + self.rng.uniform(-40, 40)
                    item["times"] = [round(t + shift, 3) for t in item["times"]]
            return {"m": "coef", "c": {"c": "comb", "items": items}}
        if kind == "dip":
            c = self.cspec() if self.r() < 0.7 else self._recipe("ccomb", depth)["c"]
            return {"m": "dip", "c": c, "pole": [round(rng.uniform(60, 89), 3), round(rng.uniform(-180, 180), 3)]}
        if kind in ("mioi", "mioe"):
            token = self.pick("mio_t", *[f"mio:{i}" for i in range(3)], "mio:3:3:2:0:2:-1:1", "mio:4:2:2:-1:1:-2:2")
            rec = {"m": kind, "files": [[self.slot("mio"), token]]}
            if kind == "mioe":
                above = self.pick(None, None, True, False)
                rec["kw"] = {} if above is None else {"above_ionosphere": above}
            return rec
        if kind == "mioc":
            spec = {"c": "mio", "seed": self.seed(), "nmax": rng.randint(1, 3), "n1": rng.randint(1, 4), "n2": rng.randint(1, 3),
                    "m1": self.pick(0, -1, -2), "m2": self.pick(0, 0, -1, -2), "sc1": 0.0, "sc2": 0.0, "i4": self.pick(0, 1)}
            if self.r() < 0.35:
                spec["validity_start"] = round(rng.uniform(-2000, 3000), 1)
                if self.r() < 0.8:
                    spec["validity_end"] = round(spec["validity_start"] + rng.uniform(100, 5000), 1)
            rec = {"m": "mioc", "c": spec, "pole": [round(rng.uniform(75, 85), 3), round(rng.uniform(-80, -60), 3)],
                   "internal": self.pick(True, True, False)}
            if self.r() < 0.5:
                rec["wolf"] = round(rng.uniform(0.005, 0.03), 5)
            return rec
        if kind == "mma":
            which = self.pick("2c_internal", "2c_external", "2f_geo_internal", "2f_geo_external", "2f_sm_internal", "2f_sm_external")
            if which.startswith("2c"):
                return {"m": "mma", "w": which, "files": [[self.slot("cdf"), self.pick("mma2c", "mmach")]]}
            return {"m": "mma", "w": which, "files": [[self.slot("cdf2f"), "mma2f"]]}
        if kind == "composed":
            items = []
            for _ in range(rng.randint(1, 3)):
                kinds = ("shc", "igrf", "wmm", "coef", "coef", "dip", "mioi", "mioe", "mioc", "stub") + (("composed",) if depth < 1 else ())
                sub = self._recipe(self.pick(*kinds), depth + 1)
                if sub["m"] == "stub" and self.r() < 0.4:
                    sub["spec"]["keep"] = 1
                scale = self.pick(1.0, 1.0, -1.0, 0.5, 2.0, [1.0, -2.0, 0.25])
                params = {}
                if sub["m"] not in ("stub", "composed") and self.r() < 0.3:
                    params[self.pick("max_degree", "min_degree")] = self.rng.randint(1, 3)
                if sub["m"] in ("mioi", "mioe", "mioc") and self.r() < 0.4:
                    params["f107"] = round(rng.uniform(60, 150), 1)
                items.append([sub, scale, params])
            if self.r() < 0.25:     # models given to the constructor
                return {"m": "composed", "how": "init", "items": [[sub, 1.0, {}] for sub, _, _ in items]}
            return {"m": "composed", "items": items}
        if kind == "stub":
            return {"m": "stub", "spec": {"amp": round(rng.uniform(1, 50), 3)}}
        raise KeyError(kind)

    def ccomp(self):
        """ Composed coefficients without time gaps. """
        n = self.rng.randint(2, 3)
        internal = True
        t0 = self.rng.uniform(-2000, 3000)
        items = []
        for _ in range(n):
            item = self.cspec(internal=internal, kinds=("td",))
            item.pop("order", None)
            nt = len(item["times"])
            step = self.rng.uniform(100, 700)
            item["times"] = [round(t0 + i*step, 3) for i in range(nt)]
            items.append(item)
            last = item["times"][-1]
            t0 = last - (self.rng.uniform(0, 0.5)*(last - item["times"][0]) if self.r() < 0.4 else 0.0)
        if self.r() < 0.4:
            self.rng.shuffle(items)
        return {"c": "comp", "items": items}

    def recipe_time(self, rec):
        """ Range of times around the validity of the model. """
        times = []

        def _collect(item):
            if isinstance(item, dict):
                if "times" in item and item.get("c") == "td":
                    times.extend(item["times"])
                if "times" in item and item.get("c") == "dy":
                    times.extend([(t - 2000.0)*365.25 for t in item["times"]])
                for value in item.values():
                    _collect(value)
            elif isinstance(item, list):
                for value in item:
                    _collect(value)
            elif isinstance(item, str):
                item = item.removeprefix("alt:")
                if item.startswith("shc:"):
                    times.extend([0.0, 5000.0])
                elif item.startswith(("chaos", "igrf", "sifm")):
                    times.extend([-300.0, 9000.0])
                elif item.startswith(("wmm", "emm")):
                    times.extend([5500.0, 7200.0])
                elif item in ("mma2c", "mmach", "mma2f"):
                    times.extend({"mma2c": [6179.0, 6210.0], "mmach": [6179.0, 6210.0], "mma2f": [6179.0, 6210.0]}[item])
        _collect(rec)
        if not times:
            return -2500.0, 8500.0
        lo, hi = min(times), max(times)
        pad = 0.12*(hi - lo) + 1.0
        return round(lo - pad, 3), round(hi + pad, 3)

    @staticmethod
    def _nodes(rec):
        """ Times of the coefficients of the model. """
        nodes = []
        for item in _walk(rec):
            if isinstance(item, dict) and item.get("c") == "td" and "times" in item:
                nodes.extend(item["times"])
        return nodes

    # -- operations
    def evalop(self, rec=None, shape=None, opts=True):
        rec = rec or self.recipe()
        shape = self.shape() if shape is None else shape
        lo, hi = self.recipe_time(rec)
        if self.r() < 0.1:
            lo, hi = -3000.0, 9000.0
        tshape, xshape = list(shape), list(shape)
        x = self.r()
        nested = rec["m"] == "composed"
        if shape and x < 0.25:
            tshape = []
        elif shape and x < 0.40:
            xshape = []
        elif len(shape) > 1 and x < (0.7 if _has_mio(rec) else 0.5):
            tshape = shape[:1]
        elif len(shape) > 1 and x < (0.75 if _has_mio(rec) else 0.56):
            xshape = shape[:1]
        ict, oct_ = self.ct(), self.ct()
        oper = {"op": "eval", "m": rec, "t": self.arr("mjd", tshape, lo=lo, hi=hi), "x": self.coords(ict, xshape),
                "ict": ict, "oct": oct_}
        if self.r() < 0.15:
            oper["t"]["rep"] = self.rng.randint(1, 2)
        if self.r() < 0.12:     # exactly at the given times
            nodes = self._nodes(rec)
            if nodes:
                oper["t"]["p"] = [[self.rng.randrange(8), None, self.rng.choice(nodes)] for _ in range(self.rng.randint(1, 4))]
        opt = {}
        if opts and self.r() < 0.5:
            x = self.r()
            if x < 0.35:
                opt["max_degree"] = self.rng.randint(0, 4)
            if 0.25 < x < 0.5:
                opt["min_degree"] = self.rng.randint(0, 3)
            if 0.4 < x < 0.7:
                opt["scale"] = self.pick(-1.0, 0.5, 2.0, {"k": "vec", "s": self.seed(), "sh": []} if not nested else 3.0)
            if x > 0.6 and _has_mio(rec):
                opt["f107"] = self.pick(90.0, self.arr("f107", tshape[:1]), self.arr("f107", tshape))
                if x > 0.8:
                    opt["lat_sol"] = self.arr("lat", tshape, lo=-23.0, hi=23.0)
                    opt["lon_sol"] = self.arr("lon", tshape)
        if opts and _has_mio(rec) and self.r() < 0.5 and "f107" not in opt:
            opt["f107"] = 100.0
        if opt:
            oper["opt"] = opt
        return oper

    def pwop(self, name=None, shape=None, heavy=0.3):
        rng = self.rng
        if name is None:
            name = self.pick(*HEAVY) if self.r() < heavy else self.pick(*PW_NAMES)
        shape = self.shape() if shape is None else list(shape)
        if name in ("qd", "mlt", "subsol", "interp") and len(shape) > 1:
            shape = shape[:1]
        if name in ("qd", "mlt") and not shape and self.r() < 0.5:
            shape = [2]
        par, args = {}, {}
        if name in ("convert", "vrotate", "sheval", "shevaltemp", "sheval2dfs", "sheval_dipole"):
            par["ict"], par["oct"] = self.ct(), self.ct()
        if name == "convert" or name == "vrotate":
            pass
        if name == "to_dipole":
            par["ict"] = self.ct()
        if name == "vrot_from_dipole":
            par["oct"] = self.ct()
        if name in ("to_dipole", "vrot_from_dipole", "sheval_dipole", "mut", "mut_sol"):
            par["pole"] = [round(rng.uniform(60, 89), 3), round(rng.uniform(-180, 180), 3)]
        if name in ("legendre", "loncossin", "relradpow"):
            par["degree"] = self.pick(0, 1, 2, 3, 5, 8)
        if name == "loncossin" and self.r() < 0.5:
            par["fast"] = self.pick(True, False)
        if name == "relradpow":
            if self.r() < 0.5:
                par["is_internal"] = self.pick(True, False)
            if self.r() < 0.4:
                par["reference_radius"] = self.pick(6371.2, 6481.2, 6000.0)
        if name in ("spharpot", "sphargrd", "sheval"):
            par["adeg"] = rng.randint(1, 5)
            if self.r() < 0.4:
                par["degree"] = rng.randint(0, par["adeg"])
            if name == "sphargrd" and self.r() < 0.4:
                par["is_internal"] = self.pick(True, False)
        if name in ("sheval", "shevaltemp", "sheval2dfs", "sheval_dipole"):
            if self.r() < 0.7:
                par["mode"] = self.pick(1, 2, 3)
            if self.r() < 0.4:
                par["is_internal"] = self.pick(True, False)
            if self.r() < 0.3:
                par["scale_potential"] = self.pick(-1.0, 2.0, 0.5)
            if self.r() < 0.3:
                par["scale_gradient"] = self.pick(-1.0, 2.0, {"k": "vec", "s": self.seed(), "sh": []})
        if name == "sheval_dipole":
            par["coef"] = {"nmax": rng.randint(1, 4), "seed": self.seed()}
        if name == "shevaltemp":
            sets = []
            for _ in range(self.pick(1, 1, 2, 3) if self.r() < 0.97 else rng.randint(4, 20)):
                spec = self.cspec(kinds=("td",))
                spec.setdefault("order", 2)
                spec.pop("tperm", None)
                spec["nmin"] = self.pick(0, 1, 1, 2)
                if self.r() < 0.2:
                    spec["lay"] = "T"
                sets.append(spec)
            par["sets"] = sets
        if name in ("sheval2dfs", "fourier2d"):
            par["set"] = {"seed": self.seed(), "nmax": rng.randint(1, 3), "n1": rng.randint(1, 4), "n2": rng.randint(1, 4),
                          "m1": self.pick(0, -1, -2, 1), "m2": self.pick(0, -1, -2, 1), "sc1": 6.283185307179586, "sc2": 0.2617993877991494}
        if name == "interp":
            spec = self.cspec(kinds=("td",))
            spec.pop("tperm", None)
            spec.pop("order", None)
            spec["nmin"], spec["nmax"] = 1, rng.randint(1, 3)
            par["set"] = spec
            par["kind"] = self.pick(0, 1, 17)
            if self.r() < 0.6:
                par["extrapolate"] = self.pick(True, False)
        if name == "bisect":
            nodes = sorted({round(rng.uniform(-2500, 8500), 1) for _ in range(rng.randint(1, 6))})
            par["nodes"] = nodes
            par["side"] = self.pick(0, 1)
        if name == "qd":
            par["base"] = self.pick(0, 0, 1)
            if self.use_slots:
                par["file"] = self.apex()
        kinds = {"a": "lat", "o": "lon", "r": "rad", "d": "dlat", "v": "vec", "t": "mjd", "u": "hour"}
        for arg in PW_ARGS.get(name, ["t"]):
            kind = kinds.get(arg, arg)
            extra = {}
            deg = par.get("adeg", 3)
            if arg == "x":
                args[arg] = self.coords(par.get("ict", 1), shape)
                continue
            if arg == "y":
                args[arg] = self.coords(par["oct"], shape)
                continue
            if name == "qd" and arg == "t":
                # epochs are distinguished by the day
                kind, extra = "dy", {"u": 0.25, "lo": 1993.0, "hi": 2032.0}
                if self.r() < 0.5:
                    lo = round(rng.uniform(1993.0, 2030.0), 2)
                    unit = self.pick(0.04, 0.015, 0.006)
                    extra = {"u": unit, "lo": lo, "hi": round(lo + unit*rng.uniform(2, 40), 4)}
                if self.r() < 0.5:
                    extra["rep"] = rng.randint(1, 3)
            elif name == "qd" and arg == "r" and self.r() < 0.4:
                extra["rep"] = rng.randint(1, 2)
            elif name == "mlt" and arg == "t":
                kind, extra = "mjd", {"u": 2.7, "uo": round(rng.random(), 3)}
                if self.r() < 0.4:
                    lo = round(rng.uniform(-2500, 10500), 1)
                    extra.update(lo=lo, hi=round(lo + rng.uniform(5, 300), 1))
            elif name == "sphargrd" and arg == "r":
                kind = "lat"
            elif name in ("spharpot", "sphargrd", "sheval") and arg in ("c", "lp", "dp", "rp", "lc"):
                tail = {"c": [(deg + 1)*(deg + 2)//2, 2], "lp": [(deg + 1)*(deg + 2)//2],
                        "dp": [(deg + 1)*(deg + 2)//2], "rp": [deg + 1], "lc": [deg + 1, 2]}[arg]
                kind, extra = "norm", {"tail": tail, "amp": 1000.0 if arg == "c" else 1.0}
            elif name in ("sheval2dfs", "fourier2d") and arg == "t":
                kind = "unit"
            elif name == "sunpos_original" and arg == "p":
                kind = "unit"
            elif name == "sunpos_original" and arg == "q":
                kind = "hour"
            elif name in ("sunpos", "sunpos_original") and arg == "d":
                kind = "sec"
            elif name == "vrot_from_dipole" and arg == "b":
                kind = "lat"
            elif name == "vrot_from_dipole" and arg == "p":
                kind = "lon"
            elif name.startswith("decimal_year"):
                kind = "dy"
            elif arg == "t" and name in ("interp", "shevaltemp"):
                lo, hi = self.recipe_time(par)
                extra = {"lo": lo, "hi": hi}
            elif arg == "t" and name == "bisect":
                extra = {"lo": -3000.0, "hi": 9000.0}
            elif arg == "t" and self.r() < 0.25:
                extra = {"lo": -36000.0, "hi": 36000.0}
            args[arg] = self.arr(kind, shape, **extra)
        if name == "mut_sol":
            for arg in ("a", "o"):
                if args[arg].get("l") in ("list", "tuple"):
                    args[arg].pop("l")
        # a value common to all samples
        scal = {"vrot_sph2geod": "d", "vrot_sph2cart": "ao", "vrot_cart2sph": "ao", "sunpos": "taord",
                "sunpos_original": "taordpq", "mut_sol": "ao", "shevaltemp": "tx", "sheval2dfs": "tux", "sheval": "xc",
                "vrot_from_dipole": "aobp"}.get(name, "")
        if shape and scal and self.r() < 0.35:
            cand = [arg for arg in args if arg in scal]
            keep = self.rng.choice(list(args))
            if name == "mut_sol":   # the result follows the solar coordinates
                keep = "a"
            for arg in cand:
                if arg != keep and self.r() < 0.5:
                    old = args[arg]
                    args[arg] = dict(old, sh=[])
                    args[arg].pop("rep", None)
                    args[arg].pop("neigh", None)
        if name in ("spharpot", "sphargrd") and shape and self.r() < 0.5:
            keep = self.rng.choice(list(args))
            for arg in args:
                if arg != keep and self.r() < 0.4:
                    args[arg] = dict(args[arg], sh=[])
        return {"op": "pw", "f": name, "a": args, "p": par}

    def apex(self):
        if self.r() < self.apex_big:
            token = self.pick("apex2015", "apex2020", "apex2025", "apex2030")
        else:
            token = self.pick("apex:0", "apex:1", "apex:2:3:3:2:1", "apex:3:1:2:1:0", "apex:4:4:4:3:2:1990.0", "apex:1:2:3:2:1:1995.0", "apex:5")
        return [f"q{self.rng.randrange(self.nslots)}.txt", token]

    def traceop(self, rec=None):
        rec = rec or self.recipe(kinds=("shc", "igrf", "wmm", "coef", "dip", "composed", "stub"))
        lo, hi = self.recipe_time(rec)
        ict = self.ct()
        topt = {"max_steps": self.rng.randint(1, 6)}
        if self.r() < 0.5:
            topt["step"] = self.pick(50.0, 200.0, 500.0)
        if self.r() < 0.3:
            topt["min_radius"] = self.pick(6300.0, 6500.0)
        return {"op": "trace", "m": rec, "t": round(self.rng.uniform(lo, hi), 3), "x": self.arr(CIN[ict], [], l="C"),
                "ict": ict, "oct": self.ct(), "topt": topt,
                "mopt": {} if self.r() < 0.6 or rec["m"] == "stub" else {"max_degree": self.rng.randint(1, 3)}}

    def cevalop(self):
        x = self.r()
        spec = self.cspec() if x < 0.4 else (self.ccomp() if x < 0.7 else self._recipe("ccomb", 0)["c"])
        lo, hi = self.recipe_time(spec)
        opt = {}
        if self.r() < 0.4:
            opt["max_degree"] = self.rng.randint(1, 4)
        return {"op": "ceval", "c": spec, "t": self.arr("mjd", self.shape(0.02), lo=lo, hi=hi), "opt": opt}

    def parseop(self):
        fmt = self.pick("shc", "shch", "igrf", "wmm", "emm", "mio")
        token = {"shc": self.shc_token, "shch": self.shc_token,
                 "igrf": lambda: self.pick("igrf11", "igrf:0", "igrf:1"), "wmm": lambda: self.pick("wmm15", "wmm:0"),
                 "emm": lambda: self.pick("emms:0", "emmv:1"), "mio": lambda: self.pick("mio_t", "mio:0")}[fmt]()
        return {"op": "parse", "fmt": fmt, "content": token, "how": self.pick("stringio", "list", "keep", "gen")}

    def miscop(self):
        if self.r() < 0.5:
            return {"op": "dt", "v": [self.rng.randint(1900, 2100), self.rng.randint(1, 12), self.rng.randint(1, 28), self.rng.randint(0, 23)]}
        return {"op": "rotmat", "v": [round(self.rng.uniform(-90, 90), 3), round(self.rng.uniform(-180, 180), 3)]}

    def badarg(self, name=None):
        """ Call of a function with one argument which does not fit. """
        oper = self.pwop(name or self.rng.choice(PW_NAMES))
        args = oper["a"]
        arg = self.rng.choice([key for key in args if isinstance(args[key], dict) and "k" in args[key]])
        spec = dict(args[arg])
        x = self.r()
        if x < 0.5 and spec.get("sh"):      # a size
            size = list(spec["sh"])
            size[self.rng.randrange(len(size))] += self.pick(1, 1, -1, 3)
            spec["sh"] = [max(0, num) for num in size]
        elif x < 0.6:
            spec["sh"] = [*spec.get("sh", []), self.rng.randint(2, 3)]
        elif x < 0.7 and spec.get("sh"):
            spec["sh"] = spec["sh"][1:]
        elif x < 0.85:
            spec = {"k": "norm", "s": self.seed(), "sh": [], "tail": self.pick([2], [4], [], [2, 2], [3, 3])}
        else:
            spec = {"k": "raw", "v": self.pick("abc", [1, [2, 3]], ["a", "b", "c"], {"x": 1}, None)}
        args[arg] = spec
        return {**oper, "bad": 1}

    def badop(self):
        """ Operation which is expected to fail (or to be harmless). """
        kind = self.pick("shape", "shape", "type", "file", "badct", "qdfile", "cdf", "none", "badmodel", "option", "option")
        if kind == "file":
            rec = self._recipe(self.pick("shc", "igrf", "wmm", "emm", "mioi", "mioe"), 0)
            rec = {**rec, "files": [[ref[0], self.bad_token(ref[1])] for ref in rec["files"]]}
            return {"op": "load", "m": rec, "bad": 1}
        if kind == "cdf":
            rec = self._recipe("mma", 0)
            other = "mma2f" if rec["w"].startswith("2c") else "mma2c"   # product of another kind
            rec = {**rec, "files": [[ref[0], self.pick("junk:1:300", "empty", "missing", "dir", "cut:400:" + ref[1], other, other)] for ref in rec["files"]]}
            return {"op": "load", "m": rec, "bad": 1}
        if kind == "qdfile":
            oper = self.pwop("qd")
            ref = oper["p"]["file"]
            oper["p"]["file"] = [ref[0], self.bad_token(ref[1])]
            oper["bad"] = 1
            return oper
        if kind == "badmodel":
            return {"op": "eval", "m": {"m": "coef", "c": {"c": "comp", "items": [
                {"c": "td", "seed": 1, "nmax": 2, "times": [0.0, 100.0]}, {"c": "td", "seed": 2, "nmax": 2, "times": [500.0, 600.0]}]}},
                    "t": 10.0, "x": self.arr("c1", []), "bad": 1}
        if kind == "option":    # fails inside of the evaluation
            oper = self.evalop(self._recipe("composed", 0) if self.r() < 0.6 else self.recipe(), opts=self.r() < 0.3)
            opt = oper.setdefault("opt", {})
            x = self.r()
            if x < 0.45:
                opt["max_degree"] = self.pick("x", {"k": "raw", "v": [1, 2]})
            elif x < 0.65:
                opt["min_degree"] = self.pick("x", {"k": "raw", "v": [1, 2]})
            elif x < 0.85:
                opt["scale"] = self.pick("x", {"k": "raw", "v": [1.0, 2.0, 3.0, 4.0, 5.0], "np": "f8"})
            else:
                opt["f107"] = self.pick("x", {"k": "raw", "v": [1.0, 2.0, 3.0, 4.0, 5.0], "np": "f8"})
            oper["bad"] = 1
            return oper
        oper = self.pwop() if self.r() < 0.7 else self.evalop()
        oper["bad"] = 1
        args = oper["a"] if oper["op"] == "pw" else oper
        arg = self.rng.choice([name for name in args if isinstance(args[name], dict) and "k" in args[name]])
        if kind == "shape":
            spec = dict(args[arg])
            x = self.r()
            if x < 0.4:
                spec["sh"] = [*spec.get("sh", []), self.rng.randint(2, 3)]
            elif x < 0.7:
                spec["sh"] = [self.rng.randint(3, 5), 2, 2]
            else:
                spec = {"k": "norm", "s": self.seed(), "sh": [], "tail": [2]}
            args[arg] = spec
        elif kind == "type":
            args[arg] = {"k": "raw", "v": self.pick("abc", [1, [2, 3]], ["a", "b", "c"], {"x": 1})}
        elif kind == "none":
            args[arg] = {"k": "raw", "v": None}
        else:
            if oper["op"] == "pw":
                key = self.pick("ict", "oct", "mode", "degree")
                if key in oper["p"]:
                    oper["p"][key] = self.pick(9, -5, 99)
                else:
                    args[arg] = {"k": "raw", "v": None}
            else:
                oper[self.pick("ict", "oct")] = self.pick(9, -5)
        return oper

    def bad_token(self, token):
        x = self.r()
        if x < 0.2:
            return "missing"
        if x < 0.35:
            return "empty"
        if x < 0.45:
            return "dir"
        if x < 0.6:
            return f"junk:{self.rng.randrange(5)}:{self.pick(10, 300)}"
        if x < 0.8:
            return f"cut:{self.rng.randint(1, 999)}:{token}"
        return f"flip:{self.rng.randrange(100)}:{self.pick(1, 3, 10)}:{token}"

    # -- variations of an operation in a single aspect
    def other_token(self, token):
        """ Another content of the same format. """
        kind, *args = token.split(":")
        if kind == "alt":
            return token[4:]
        if self.r() < 0.3 and token.startswith(("shc:", "igrf:", "wmm:", "mio:", "apex", "igrf1", "chaos8p")):
            return "alt:" + token       # of the same size
        if token.startswith("apex"):
            return self.apex()[1]
        if kind in ("shc", "igrf", "wmm", "mio") and args:
            return ":".join([kind, str(int(args[0]) + self.pick(1, 2)), *args[1:]])
        return {"igrf12": "igrf13", "igrf13": "igrf14", "igrf14": "igrf12", "wmm15": "wmm:0", "igrf11": "igrf:0",
                "mio_t": "mio:0", "mma2c": "mmach", "mmach": "mma2c", "chaos7p": "chaos8p", "chaos8p": "chaos7p",
                "chaos7": "chaos8", "chaos8": "chaos7"}.get(token, token)

    def _vary_recipe(self, rec):
        files = [ref for ref in _walk(rec) if isinstance(ref, list) and len(ref) == 2 and all(isinstance(v, str) for v in ref)]
        specs = [item for item in _walk(rec) if isinstance(item, dict) and "seed" in item]
        stubs = [item for item in _walk(rec) if isinstance(item, dict) and "amp" in item]
        poles = [item for item in _walk(rec) if isinstance(item, dict) and "pole" in item]
        what = self.pick(*(["file"]*bool(files) + ["spec", "time"]*bool(specs) + ["stub"]*bool(stubs)
                           + ["pole"]*bool(poles) + ["item"]*(rec.get("m") == "composed") or ["none"]))
        if what == "file":
            ref = self.rng.choice(files)
            if self.r() < 0.75:
                ref[1] = self.other_token(ref[1])
            else:
                ref[0] = "v" + ref[0]
        elif what == "spec":
            self.rng.choice(specs)["seed"] += 1
        elif what == "time":
            spec = self.rng.choice(specs)
            if "times" in spec:
                spec["times"][-1] += self.pick(0.25, 30.0)
            else:
                spec["seed"] += 1
        elif what == "stub":
            self.rng.choice(stubs)["amp"] += 1.0
        elif what == "pole":
            self.rng.choice(poles)["pole"][self.rng.randrange(2)] -= 1.5
        elif what == "item":
            item = self.rng.choice(rec["items"])
            item[1] = self.pick(3.0, -0.5, 1.0)

    def variant(self, oper):
        """ The operation changed in one aspect. """
        oper = copy.deepcopy(oper)
        rng = self.rng
        arrays = [item for key in ("a", "t", "x", "opt", "topt") for item in _walk(oper.get(key))
                  if isinstance(item, dict) and "s" in item and "k" in item]
        what = ["array"]*3*bool(arrays) + ["sample"]*bool(arrays)
        par = oper.get("p") or {}
        opt = oper.get("opt")
        if "file" in par:
            what += ["qdfile"]*4
        if "m" in oper or "c" in oper:
            what += ["recipe"]*3
        if "oct" in oper or ("oct" in par and oper["f"] not in ("vrotate",)):
            what += ["oct"]*2
        if oper["op"] == "eval":
            what += ["opt"]*2
        for key in ("mode", "is_internal", "degree", "scale_gradient", "scale_potential", "pole", "kind", "extrapolate",
                    "side", "base", "reference_radius", "fast", "nodes", "sets", "set", "coef"):
            if key in par:
                what += ["par:" + key]
        if not what:
            return oper
        what = self.pick(*what)
        if what == "array":
            rng.choice(arrays)["s"] += 1
        elif what == "sample":
            arr = rng.choice(arrays)
            arr["p"] = [*arr.get("p", []), [rng.randrange(8), rng.randrange(3), self.pick(0.0, "nan", 1.5)]]
        elif what == "qdfile":
            if self.r() < 0.6:
                par["file"][1] = self.apex()[1]
            elif self.r() < 0.5:
                par["file"][0] = "v" + par["file"][0]
            else:
                par["base"] = 1 - par["base"]
        elif what == "recipe":
            self._vary_recipe(oper["m"] if "m" in oper else oper["c"])
        elif what == "oct":
            where = oper if "oct" in oper else par
            where["oct"] = (where["oct"] + self.pick(1, 2)) % 3
        elif what == "opt":
            opt = oper.setdefault("opt", {})
            key = self.pick("max_degree", "min_degree", "scale")
            if key in opt:
                del opt[key]
            else:
                opt[key] = rng.randint(1, 3) if key != "scale" else self.pick(2.0, -1.0)
        else:
            key = what[4:]
            if key in ("mode", "degree"):
                par[key] = rng.randint(1, 3)
            elif key in ("is_internal", "extrapolate", "fast"):
                par[key] = not par[key]
            elif key in ("side", "base"):
                par[key] = 1 - par[key]
            elif key in ("scale_gradient", "scale_potential", "reference_radius"):
                del par[key]
            elif key == "pole":
                par["pole"] = [par["pole"][0] - 3.25, par["pole"][1]] if self.r() < 0.5 else [par["pole"][0], par["pole"][1]/2]
            elif key == "kind":
                par["kind"] = self.pick(0, 1, 17)
            elif key == "nodes":
                par["nodes"] = [node + 17.5 for node in par["nodes"]]
            elif key == "coef":
                par["coef"]["seed"] += 1
            elif key == "set":
                par["set"]["seed"] += 1
            elif key == "sets":
                spec = rng.choice(par["sets"])
                if self.r() < 0.5:
                    spec["seed"] += 1
                else:
                    spec["times"][-1] += 30.0
        return oper

    def op(self, bad=0.12):
        x = self.r()
        if x < bad:
            return self.badop()
        x = self.r()
        if x < 0.42:
            return self.pwop()
        if x < 0.80:
            return self.evalop()
        if x < 0.85:
            return {"op": "info", "m": self.recipe()}
        if x < 0.89:
            return self.traceop()
        if x < 0.93:
            return self.cevalop()
        if x < 0.96:
            rec = self.recipe(kinds=("shc", "shcc", "igrf", "wmm", "emm", "mioi", "mioe", "mma"))
            return {"op": "load", "m": rec}
        if x < 0.98:
            return self.parseop()
        return self.miscop()


def _walk(obj):
    """ All nested lists and dictionaries. """
    if isinstance(obj, dict):
        yield obj
        for value in obj.values():
            yield from _walk(value)
    elif isinstance(obj, list):
        yield obj
        for value in obj:
            yield from _walk(value)


def _has_mio(rec):
    if rec["m"] in ("mioi", "mioe", "mioc"):
        return True
    return rec["m"] == "composed" and any(_has_mio(item[0]) for item in rec["items"])


def rng_for(seed, *salt):
    return random.Random(f"{seed}:" + ":".join(str(s) for s in salt))
