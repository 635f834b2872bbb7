"""Array evaluations as sets of samples: selecting, reordering, reshaping and
laying out the samples of an operation.
"""
import numpy as np
from . import ops
from .values import mk, layout, TAIL

ONLY_1D = {"qd", "mlt", "subsol", "interp"}


def _core(spec):
    if spec["k"] in TAIL:
        return 1
    return len(spec.get("tail", ()))


class Batch:
    """ The samples of an operation (pw or eval). """

    def __init__(self, env, oper):
        self.env = env
        self.oper = oper
        self.args, self.core = {}, {}
        self.const = {}
        specs = {}
        if oper["op"] == "pw":
            specs = dict(oper["a"])
        else:
            specs = {"t": oper["t"], "x": oper["x"]}
            for key, spec in oper.get("opt", {}).items():
                if isinstance(spec, dict) and key != "scale":
                    specs["opt:" + key] = spec
                else:
                    self.const[key] = spec
        for name, spec in specs.items():
            if isinstance(spec, dict):
                spec = {k: v for k, v in spec.items() if k not in ("l", "py")}
                self.core[name] = _core(spec)
                self.args[name] = np.array(mk(spec), dtype="f8")
            else:
                self.core[name] = 0
                self.args[name] = np.array(spec, dtype="f8")
        self.shape = max((self.batch(name) for name in self.args), key=len)
        self.only1 = oper["op"] == "pw" and oper["f"] in ONLY_1D
        self.size = int(np.prod(self.shape, dtype=int))
        # number of the leading (batch) dimensions of the single outputs
        self.model = env.model(oper["m"]) if oper["op"] == "eval" else None

    def batch(self, name):
        arr, core = self.args[name], self.core[name]
        return arr.shape[:arr.ndim - core]

    def full(self, name):
        """ Argument with all batch dimensions. """
        arr = self.args[name]
        lead = self.batch(name)
        new = arr.reshape((*lead, *(1,)*(len(self.shape) - len(lead)), *arr.shape[len(lead):]))
        return np.array(np.broadcast_to(new, (*self.shape, *arr.shape[len(lead):])), order="C")

    def flat(self, name):
        arr = self.full(name)
        return arr.reshape(self.size, *arr.shape[len(self.shape):])

    def call(self, args):
        """ Evaluate: list of the output arrays. """
        oper = self.oper
        if oper["op"] == "pw":
            out = ops.run_pw(self.env, oper, args)
        else:
            kwargs = {}
            if "ict" in oper:
                kwargs["input_coordinate_system"] = oper["ict"]
            if "oct" in oper:
                kwargs["output_coordinate_system"] = oper["oct"]
            for key, value in self.const.items():
                kwargs[key] = value if isinstance(value, np.ndarray) else mk(value)
            for key, value in args.items():
                if key.startswith("opt:"):
                    kwargs[key[4:]] = value
            out = self.model.eval(args["t"], args["x"], **kwargs)
        return [np.array(item) for item in (out if isinstance(out, tuple) else (out,))]

    def attempt(self, args):
        try:
            return ["ok", self.call(args)]
        except Exception as exc:
            return ["err", type(exc).__name__ + ": " + str(exc)[:200]]

    def flatten(self, outs, lead):
        """ Outputs with the leading dimensions replaced by one. """
        size = int(np.prod(lead, dtype=int))
        good = []
        for out in outs:
            if out.shape[:len(lead)] != tuple(lead):
                raise ShapeError(f"shape {out.shape} does not start with {tuple(lead)}")
            good.append(out.reshape(size, *out.shape[len(lead):]))
        return good

    # different ways of evaluating the same samples: (name, indices, outputs)
    def pick(self, idx):
        """ Evaluate the samples given by flat indices as 1-D arrays. """
        idx = np.asarray(idx, dtype=int)
        args = {name: self.flat(name)[idx] if self.batch(name) else self.args[name] for name in self.args}
        return args

    def one(self, idx, ndim):
        multi = np.unravel_index(idx, self.shape) if self.shape else ()
        args = {}
        for name, arr in self.args.items():
            lead = self.batch(name)
            item = arr[tuple(multi[:len(lead)])]
            if lead and ndim:
                item = item[None]
            args[name] = item
        return args


class ShapeError(Exception):
    pass


def compare(got, want, rtol, atol, angles):
    """ got, want: lists of arrays of the same samples. """
    if len(got) != len(want):
        return f"{len(got)} instead of {len(want)} outputs"
    for num, (out1, out2) in enumerate(zip(got, want)):
        dif = ops.same(out1, out2, rtol, atol, angles)
        if dif:
            return f"output {num} {dif}"
    return None


def layouts(args, lays, core):
    out = {}
    for name, arr in args.items():
        how = lays.get(name)
        out[name] = layout(np.asarray(arr), how) if how else arr
    return out
