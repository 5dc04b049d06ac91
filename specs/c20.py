"""C20 Options reach MIR unchanged."""
from pyvc.harness import harness
from earthkit.regrid.backends import mir as mir_backend
from earthkit.regrid.backends.mir import MirBackend

PROPERTY = "C20"
LEVEL_NOTE = "the mir package is replaced by a recorder (contract: it uses what was set before execution); grids have a name or increments and possibly an area"
ASSUMPTIONS = ["mir.Job uses the last value set for each option before it is executed, and its inputs as they are given"]


class MirError(Exception):
    pass


class Input:
    def __init__(self, *args):
        self.args = args


class Output:
    def __init__(self, S):
        self.result, self.spec = S.token("values"), S.token("spec")
        self.filled = 0

    def values(self):
        return self.result if self.filled == 1 else None


class Job:
    def __init__(self, mir):
        self.mir = mir
        self.options = {}

    def set(self, key, value):
        self.options[key] = value
        return self

    def execute(self, i, o):
        m = self.mir
        if m.fails:
            raise MirError()
        m.executed.append(({k: v for k, v in self.options.items()}, i))
        if isinstance(o, Output):
            o.filled += 1
        else:
            o.write(m.message)


class Mir:
    """the mir package"""

    def __init__(self, S, fails):
        self.S, self.fails = S, fails
        self.executed, self.outputs = [], []
        self.message = S.blob("result")

    def ArrayInput(self, *args):
        return Input("array", *args)

    def GribMemoryInput(self, *args):
        return Input("grib", *args)

    def ArrayOutput(self):
        o = Output(self.S)
        self.outputs.append(o)
        return o

    def Job(self):
        return Job(self)


def area(S):
    """-> (the area, the text it means or None when it is to be refused)"""
    kind = S.choice("area", "none", "text", "list", "tuple", "mixed", "short", "long", "number", "null", "dict")
    if kind == "none":
        return kind, None, None
    if kind == "text":
        t = S.text("area text", gen=lambda r: r.choice(["90/0/-90/359", "1/2/3/4", "a"]))
        return kind, t, t
    if kind == "mixed":
        v = [S.int("n"), 0.5, S.int("s"), "359"]
        return kind, v, f"{v[0]}/0.5/{v[2]}/359"
    n, w, s, e = S.int("north"), S.int("west"), S.int("south"), S.int("east")
    if kind in ("list", "tuple"):
        return kind, [n, w, s, e] if kind == "list" else (n, w, s, e), f"{n}/{w}/{s}/{e}"
    return kind, {"short": [n, w, s], "long": [n, w, s, e, 0], "number": n, "null": None, "dict": {"n": n}}[kind], None


def grid(S, kind, a):
    named = S.choice("grid", "increments", "name") == "name"
    g = {"grid": "O32" if named else [1, 1]}
    if named:
        g["order"] = S.text("order")
    if kind != "none":
        g["area"] = a
    return g


def clone(v):
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    return v


def options(S):
    opts = {}
    names = S.choice("options", (), ("interpolation",), ("interpolation", "nearest_method"), ("distance", "distance_tolerance", "nclosest"), tuple(DEFAULTS))
    for k in names:
        if k in FLOATS:
            opts[k] = S.real(k) if S.choice("distances", "real", "integer") == "real" else S.int(k)
        elif k == "nclosest":
            opts[k] = S.int(k)
        else:
            opts[k] = S.text(k, gen=lambda r: r.choice(["automatic", "nclosest", "linear", "nn"]))
    return opts


FLOATS = ("distance", "distance_tolerance")
DEFAULTS = {"interpolation": "linear", "nearest_method": "automatic", "distance": 1, "distance_tolerance": 1, "nclosest": 4}


def passed(S, got, g, want_area, opts, required):
    S.check("the output grid is passed on without its area", got.get("grid") == {k: v for k, v in g.items() if k != "area"})
    if want_area is None:
        S.check("no area is made up", "area" not in got)
    else:
        S.check("the area is passed on as text", got.get("area") == want_area)
    for k in DEFAULTS:
        v = opts[k] if k in opts else DEFAULTS[k]
        if k == "nearest_method" and v == "automatic":
            S.check("the choice of the nearest method is left to MIR", k not in got)
        elif k in required or k in got:
            S.check("options are passed on as given", k in got and got[k] == v)
            S.check("distances are passed on as floating point numbers", k not in FLOATS or isinstance(got[k], float))
    for k in got:
        S.check("nothing else is passed on", k in DEFAULTS or k == "grid" or k == "area")


@harness(timeout=150, split={"area": 5})
def arrays(S):
    kind, a, text = area(S)
    m = Mir(S, S.choice("mir fails", False, True))
    S.module("mir", m)
    values, gi = S.token("input"), {"grid": S.choice("input grid", [2, 2], "N32")}
    g = grid(S, kind, a)
    gi0, g0 = clone(gi), clone(g)
    opts = options(S)
    opts0 = clone(opts)
    r = None
    refused, failed = False, False
    try:
        r = MirBackend().regrid(values, gi, g, **opts)
    except ValueError:
        refused = True
    except MirError:
        failed = True
    S.check("the caller's grids are not modified", gi == gi0 and g == g0)
    S.check("the caller's options are not modified", opts == opts0)
    bad = kind != "none" and text is None
    S.check("an area in another form is refused", refused == bad)
    if bad:
        S.check("nothing is computed then", len(m.executed) == 0)
    else:
        S.check("a failure of MIR is passed on", failed == m.fails)
        if not failed:
            S.check("computed once", len(m.executed) == 1)
            got, i = m.executed[0]
            S.check("the values are passed on as they are", i.args[0] == "array" and i.args[1] is values)
            S.check("the input grid is passed on as given", len(i.args) == 3 and i.args[2] == gi0)
            passed(S, got, g0, text, opts0, tuple(DEFAULTS))
            S.check("the result of MIR is returned unchanged", len(m.outputs) == 1 and r[0] is m.outputs[0].result and r[1] is m.outputs[0].spec)


@harness(timeout=150, split={"area": 5})
def messages(S):
    kind, a, text = area(S)
    m = Mir(S, S.choice("mir fails", False, True))
    S.module("mir", m)
    msg = S.blob("message")
    g = grid(S, kind, a)
    g0 = clone(g)
    opts = options(S)
    opts0 = clone(opts)
    r = None
    refused, failed = False, False
    try:
        r = MirBackend().regrid_grib(msg, g, **opts)
    except ValueError:
        refused = True
    except MirError:
        failed = True
    S.check("the caller's grid is not modified", g == g0)
    S.check("the caller's options are not modified", opts == opts0)
    bad = kind != "none" and text is None
    S.check("an area in another form is refused", refused == bad)
    if bad:
        S.check("nothing is computed then", len(m.executed) == 0)
    else:
        S.check("a failure of MIR is passed on", failed == m.fails)
        if not failed:
            S.check("computed once", len(m.executed) == 1)
            got, i = m.executed[0]
            S.check("the message is passed on as it is", i.args[0] == "grib" and i.args[1] == msg)
            passed(S, got, g0, text, opts0, tuple(DEFAULTS))
            S.check("the message MIR produces is returned unchanged", r == m.message)


@harness(symbolic=False, samples=12, search_s=4)
def real(S):
    """run time: the real MIR gives what it gives for the same job"""
    import numpy as np
    import mir
    gi = {"grid": "O32"}
    values = np.random.default_rng(S.int("seed", 0, 1000)).random(5248)
    g = {"grid": S.choice("grid", [10, 10], [20, 20], "O16")}
    method = S.choice("method", "linear", "nearest-neighbour")
    ar = [60, 0, 20, 40] if S.choice("area", False, True) else None
    out = mir.ArrayOutput()
    job = mir.Job()
    job.set("grid", dict(g))
    job.set("interpolation", method)
    if ar:
        job.set("area", "60/0/20/40")
        g["area"] = ar
    job.execute(mir.ArrayInput(values, gi), out)
    want = out.values()
    got, spec = MirBackend().regrid(values, gi, g, interpolation=method)
    S.check("the same values", got.shape == want.shape and np.array_equal(got, want))
    S.check("the same grid", spec == out.spec)
