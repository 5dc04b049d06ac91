"""C17 Backends and data handlers are dispatched faithfully."""
import io

from pyvc.harness import harness
from earthkit.regrid import backends, data
from earthkit.regrid import regrid as _regrid
from earthkit.regrid.array import regrid as _array_regrid
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends import precomputed
from earthkit.regrid.data import grib as grib_handler
from earthkit.regrid.data import handler as handler_module
from earthkit.regrid.data import numpy as numpy_handler

PROPERTY = "C17"
LEVEL_NOTE = "option names and argument counts from a finite set (up to 2 positional and 3 named arguments), their values arbitrary; the factory of built-in backends is checked at run time only"


class Made:
    """a backend class: remembers what it was constructed with"""

    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs


class Alpha(Made):
    pass


class Beta(Made):
    pass


CLASSES = {"alpha": Alpha, "beta": Beta}


def request(S, i):
    name = S.choice("name", "alpha", "beta", "gamma") if i != 1 else S.choice("name", "alpha", "gamma")
    n = S.choice("positional", 0, 1, 2)
    args = []
    for k in range(n):
        if S.choice("kind", "text", "pair") == "pair":
            args.append(("inventory", S.text("value")))
        else:
            args.append(S.text("value"))
    names = S.choice("named", (), ("inventory",), ("inventory", "other"), ("other", "inventory"))
    kwargs = {k: S.text("value") for k in names}
    return name, args, kwargs


def ask(maker, r):
    try:
        return maker(r[0], *r[1], **r[2])
    except ValueError:
        return None


def fresh_maker(S):
    S.patch(backends.BackendMaker, "_builtins", lambda self: dict(CLASSES))
    S.patch(backends.BackendMaker, "BACKEND_OBJECTS", {})
    return backends.BackendMaker()


@harness(timeout=150, split={"name": 3, "positional": 3}, samples=2000)
def memo(S):
    """two requests with another one in between: same request same instance, different request different instance"""
    m = fresh_maker(S)
    a = request(S, 0)
    b = request(S, 1)
    given = {k: v for k, v in a[2].items()}
    x = ask(m, a)
    if x is None:
        S.check("only unknown names are refused", a[0] == "gamma")
    else:
        S.check("an unknown name is refused", a[0] != "gamma")
        S.check("an instance of the class registered under the name", isinstance(x, CLASSES[a[0]]))
        S.check("constructed with exactly the positional arguments", list(x.args) == a[1])
        S.check("constructed with exactly the named arguments", x.kwargs == a[2])
    S.check("the caller's options are not modified", a[2] == given)
    y = ask(m, b)
    if y is None:
        S.check("only unknown names are refused", b[0] == "gamma")
    else:
        S.check("an instance of the class registered under the name", isinstance(y, CLASSES[b[0]]))
        S.check("constructed with exactly the positional arguments", list(y.args) == b[1])
        S.check("constructed with exactly the named arguments", y.kwargs == b[2])
    if x is not None and y is not None:
        if S.all_of(a[0] == b[0], a[1] == b[1], a[2] == b[2]):
            S.check("the same request gives the same instance", y is x)
        else:
            S.check("a different request gives a different instance", y is not x)
    z = ask(m, a)
    S.check("later requests do not affect an instance", z is x)


@harness(samples=4, native=True, symbolic=False)
def builtins(S):
    """run time: the backends of this package are registered under their names"""
    S.check("precomputed", backends.MAKER.BACKENDS.get("precomputed") is precomputed.MatrixBackend)
    from earthkit.regrid.backends import mir
    S.check("mir", backends.MAKER.BACKENDS.get("mir") is mir.MirBackend)
    S.check("nothing else", set(backends.MAKER.BACKENDS) == {"mir", "precomputed"})
    b = backends.get_backend("precomputed", inventory="/somewhere")
    S.check("an instance", type(b) is precomputed.MatrixBackend and b.db.matrix_source() == "/somewhere")
    S.check("the same instance", backends.get_backend("precomputed", inventory="/somewhere") is b)


@harness()
def inventories(S):
    """the precomputed backend uses exactly the inventory asked for"""
    kind = S.choice("kind", "none", "default", "http", "https", "path", "empty")
    name = S.text("rest")
    path = {"none": None, "default": "ecmwf", "http": "http://" + name, "https": "https://" + name, "path": "/" + name, "empty": ""}[kind]
    ok = True
    db = None
    try:
        db = precomputed.MatrixBackend(path).db
    except ValueError:
        ok = False
    S.check("only an empty inventory is refused", ok == (kind != "empty"))
    if kind in ("none", "default"):
        S.check("the system inventory", db is db_module.SYS_DB)
    elif ok:
        S.check("the inventory asked for", db.matrix_source() == path)
        S.check("its own database", db is not db_module.SYS_DB)
        local = isinstance(db._accessor, db_module.LocalAccessor)
        S.check("urls are remote and paths are local", local == (kind == "path"))


class Recorder:
    """a data handler: remembers the call"""

    def __init__(self, takes, result):
        self.takes, self.result = takes, result
        self.calls = []
        self.made = 0

    def match(self, values):
        return self.takes

    def __call__(self):
        self.made += 1
        return self

    def regrid(self, *args, **kwargs):
        self.calls.append((args, {k: v for k, v in kwargs.items()}))
        kwargs["extra"] = 1
        return self.result


def options(S):
    """any options; the inventory also as a value that Python counts as false"""
    opts = {k: S.text("option") for k in S.choice("extra", *EXTRA)}
    if "inventory" in opts:
        k = S.choice("inventory", "some", "empty", "none")
        if k != "some":
            opts["inventory"] = "" if k == "empty" else None
    elif opts:
        k = S.choice("first option", "some", "empty", "none", "zero")
        if k != "some":
            opts[list(opts)[0]] = {"empty": "", "none": None, "zero": 0}[k]
    return opts


EXTRA = (), ("inventory",), ("distance", "inventory"), ("in_dims", "nearest_method", "inventory"), ("distance",)


@harness(timeout=150, split={"extra": 5})
def top_level(S):
    """regrid hands everything to the first handler that takes the data"""
    hs = []
    for i in range(3):
        hs.append(Recorder(S.choice("takes", True, False), S.token("result")))
    S.patch(data, "DATA_HANDLERS", hs)
    values, grid = S.token("values"), {"grid": [S.int("dx"), 1]}
    before = {"grid": list(grid["grid"])}
    opts = options(S)
    if S.choice("interpolation given", False, True):
        opts["interpolation"] = S.text("interpolation")
    if S.choice("backend given", False, True):
        opts["backend"] = S.text("backend")
    given = {k: v for k, v in opts.items()}
    r = None
    refused = False
    try:
        r = _regrid(values, grid, **opts) if S.choice("grid", "positional", "named") == "positional" else _regrid(values, grid=grid, **opts)
    except ValueError:
        refused = True
    S.check("the caller's options are not modified", opts == given)
    S.check("the caller's grid is not modified", grid == before)
    first = None
    for h in hs:
        if h.takes and first is None:
            first = h
        else:
            S.check("no other handler is called", len(h.calls) == 0)
    S.check("unsupported data is refused", refused == (first is None))
    if first is not None:
        S.check("the handler is called once", len(first.calls) == 1)
        S.check("its result is returned", r is first.result)
        args, kw = first.calls[0]
        S.check("the data is handed over as it is", len(args) == 1 and args[0] is values)
        want = {"grid": grid, "interpolation": "linear", "backend": "mir"}
        for k in given:
            want[k] = given[k]
        S.check("every option is handed over unchanged, and nothing else", kw == want)
        S.check("the grid is handed over as it is", kw["grid"] is grid)


class Backend:
    def __init__(self, result, grib):
        self.result = result
        self.calls = []
        if grib:
            self.regrid_grib = self._regrid_grib

    def regrid(self, *args, **kwargs):
        self.calls.append(("array", args, kwargs))
        return self.result

    def _regrid_grib(self, *args, **kwargs):
        self.calls.append(("grib", args, kwargs))
        return self.result


def with_backend(S, grib=False):
    b = Backend(S.token("result"), grib)
    asked = []

    def get_backend(name, *args, **kwargs):
        asked.append((name, args, kwargs))
        return b
    S.patch(backends, "get_backend", get_backend)
    return b, asked


@harness(timeout=150, split={"extra": 5})
def arrays(S):
    """array.regrid asks for the backend by its name and inventory and hands everything else to it"""
    b, asked = with_backend(S)
    values, gi, go = S.token("values"), {"grid": [1, 1]}, {"grid": [S.int("dx"), 2]}
    opts = options(S)
    if S.choice("interpolation given", False, True):
        opts["interpolation"] = S.text("interpolation")
    which = S.choice("backend given", False, True, "none")
    if which:
        opts["backend"] = S.text("backend") if which is True else None
    given = {k: v for k, v in opts.items()}
    r = None
    refused = False
    try:
        r = _array_regrid(values, gi, go, **opts) if S.choice("grids", "positional", "named") == "positional" else _array_regrid(values, in_grid=gi, out_grid=go, **opts)
    except ValueError:
        refused = True
    S.check("the caller's options are not modified", opts == given)
    S.check("the caller's grids are not modified", gi == {"grid": [1, 1]} and len(go) == 1 and len(go["grid"]) == 2)
    S.check("a backend is needed", refused == (which == "none"))
    if not refused:
        name = given.pop("backend", "mir")
        inv = {"inventory": given.pop("inventory")} if "inventory" in given else {}
        S.check("the backend is asked for once by its name with the inventory only", len(asked) == 1 and asked[0][0] == name and len(asked[0][1]) == 0 and asked[0][2] == inv)
        S.check("it is used once and its result returned", len(b.calls) == 1 and r is b.result)
        what, args, kw = b.calls[0]
        want = {"interpolation": "linear"}
        want.update(given)
        S.check("the values and grids are handed over as they are", args[0] is values and (len(args) == 3 and args[1] is gi and args[2] is go if len(args) > 1 else kw.pop("in_grid", None) is gi and kw.pop("out_grid", None) is go))
        S.check("every option is handed over unchanged, and nothing else", kw == want)


@harness(timeout=150, split={"extra": 5})
def messages(S):
    """GRIB messages: as bytes or in memory, to a backend that can regrid them"""
    grib = S.choice("grib", True, False)
    b, asked = with_backend(S, grib)
    msg = b"GRIB...7777"
    values = msg if S.choice("form", "bytes", "memory") == "bytes" else io.BytesIO(msg)
    grid = {"grid": [1, 1]}
    opts = options(S)
    if S.choice("interpolation given", False, True):
        opts["interpolation"] = S.text("interpolation")
    opts["backend"] = S.text("backend")
    given = {k: v for k, v in opts.items()}
    r = None
    refused = False
    try:
        r = _regrid(values, grid, **opts)
    except ValueError:
        refused = True
    S.check("the caller's options are not modified", opts == given)
    S.check("the caller's grid is not modified", grid == {"grid": [1, 1]})
    S.check("only a backend for messages is used", refused == (not grib))
    name = given.pop("backend")
    inv = {"inventory": given.pop("inventory")} if "inventory" in given else {}
    S.check("the backend is asked for by its name with the inventory only", len(asked) == 1 and asked[0][0] == name and len(asked[0][1]) == 0 and asked[0][2] == inv)
    if not refused:
        S.check("it is used once and its result returned", len(b.calls) == 1 and r is b.result)
        what, args, kw = b.calls[0]
        kw = {k: v for k, v in kw.items()}
        S.check("the message is handed over as it is", what == "grib" and args[0] == msg)
        g = args[1] if len(args) > 1 else kw.pop("grid")
        want = {"interpolation": "linear"}
        want.update(given)
        S.check("the grid and every option are handed over unchanged, and nothing else", g is grid and kw == want and len(args) <= 2)


@harness()
def types(S):
    """data of every other type is refused"""
    with_backend(S, True)
    kind = S.choice("kind", "array", "number", "text", "none", "list", "dict", "tuple", "object")
    values = {"array": S.array("values") if kind == "array" else None, "number": 1, "text": "GRIB", "none": None, "list": [1.0], "dict": {"a": 1}, "tuple": (b"GRIB",), "object": S.token("x")}[kind]
    refused = False
    try:
        _regrid(values, {"grid": [1, 1]})
    except ValueError:
        refused = True
    S.check("unsupported data is refused", refused)


@harness(symbolic=False, samples=6)
def kinds(S):
    """run time: every supported type has its own handler"""
    import earthkit.data
    import numpy as np
    import xarray as xr
    from earthkit.regrid.data import fieldlist
    from earthkit.regrid.data import xarray as xarray_handler
    ds = earthkit.data.from_source("sample", "test.grib") if False else earthkit.data.FieldList.from_array(np.zeros(3), {"shape": (3,)}) if hasattr(earthkit.data.FieldList, "from_array_") else None
    da = xr.DataArray(np.zeros((2, 3)), dims=["latitude", "longitude"])
    h = data.get_data_handler
    S.check("bytes", isinstance(h(b"x"), grib_handler.GribMessageDataHandler))
    S.check("messages in memory", isinstance(h(io.BytesIO(b"x")), grib_handler.GribMessageDataHandler))
    S.check("data arrays", isinstance(h(da), xarray_handler.XarrayDataHandler))
    S.check("datasets", isinstance(h(xr.Dataset({"a": da})), xarray_handler.XarrayDataHandler))
    S.check("field lists", isinstance(h(earthkit.data.FieldList()), fieldlist.FieldListDataHandler))
    for x in (np.zeros(3), 1, "x", None, [1], {}, object()):
        S.check("nothing else", h(x) is None)
