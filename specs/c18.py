"""C18 The deprecated interpolate gives the same result as regrid."""
import json
import os
import tempfile

from pyvc.harness import harness
from earthkit.regrid import interpolate
from earthkit.regrid.array import regrid as array_regrid
from earthkit.regrid import backends
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends.db import MatrixDb
from specs.fields import LATLON, OTHER, Arrays, Field, Fields, Metadata, NoMetadata, data, fl_spec

PROPERTY = "C18"
LEVEL_NOTE = "weights lookup (MatrixDb.find) replaced by its contract: a function of inventory, grids and method (C02, C07)"
ASSUMPTIONS = ["MatrixDb.find is a function of the inventory, the two grids and the method (C02, C07)",
               "array reshape/flatten keep the values in C order; weights @ values is a function of the weights and the values in C order"]


def lookup(S, calls):
    """any inventory content"""
    def find(self, gi, go, method, **kw):
        calls.append((self.matrix_source(), gi, go, method, kw))
        if not S.pure_bool("found", self.matrix_source(), gi, go, method):
            return None, None
        return S.pure_weights("w", self.matrix_source(), gi, go, method), S.pure("shape", self.matrix_source(), gi, go, method)
    S.patch(MatrixDb, "find", find)


def attempt(f):
    """-> (result, how it ended)"""
    try:
        return f(), "ok"
    except ValueError:
        return None, "refused"


def inventory(S):
    """-> (matrix_source options, the same inventory for regrid)"""
    kind = S.choice("inventory", "default", "none", "ecmwf", "path", "url", "empty")
    if kind == "default":
        return {}, {}
    v = {"none": None, "ecmwf": "ecmwf", "empty": "", "path": "/" + S.text("dir"), "url": "https://" + S.text("host")}[kind]
    return {"matrix_source": v}, {"inventory": v}


def same_method(S):
    """-> (method options, the same for regrid)"""
    if S.choice("method given", True, False):
        m = S.text("method", gen=lambda r: r.choice(["linear", "nn", "nearest-neighbour", "grid-box-average"]))
        return {"method": m}, {"interpolation": m}
    return {}, {}


@harness(native=False, timeout=150, split={"inventory": 6})
def same_result(S):
    """any values, grids, method and inventory: both give the same array, or both refuse"""
    calls = []
    lookup(S, calls)
    S.patch(backends.BackendMaker, "BACKEND_OBJECTS", {})
    values = S.array("values")
    kept = S.keep(values)
    gi, go = S.token("input grid"), S.token("output grid")
    a, b = inventory(S)
    ma, mb = same_method(S)
    opts = {}
    opts.update(a)
    opts.update(ma)
    given = {k: v for k, v in opts.items()}
    if S.choice("grids", "positional", "named") == "positional":
        old, how = attempt(lambda: interpolate(values, gi, go, **opts))
    else:
        old, how = attempt(lambda: interpolate(values, in_grid=gi, out_grid=go, **opts))
    S.check("the caller's options are not modified", opts == given)
    S.check("the caller's values are not modified", S.unchanged(values, kept))
    n = len(calls)
    new, how2 = attempt(lambda: array_regrid(values, gi, go, backend="precomputed", **mb, **b))
    S.check("refused exactly when regrid refuses", how == how2)
    if how == "ok":
        S.check("the same values and shape as regrid", S.same_array(old, new[0]))
    if a.get("matrix_source") == "":
        S.check("an empty inventory is refused without a lookup", how == "refused" and len(calls) == 0)
    else:
        S.check("one lookup", n == 1)
        S.check("the same inventory is asked", len(calls) == 2 and calls[0][0] == calls[1][0])


@harness()
def backend_refused(S):
    """a backend argument is refused"""
    calls = []
    lookup(S, calls)
    values = S.array("values")
    opts, _ = inventory(S)
    m, _ = same_method(S)
    b = S.choice("backend", "precomputed", "mir", None)
    refused = False
    try:
        interpolate(values, {"grid": [1, 1]}, {"grid": [2, 2]}, backend=b, **m, **opts)
    except ValueError:
        refused = True
    S.check("refused", refused)
    S.check("nothing is looked up", len(calls) == 0)


@harness()
def unsupported(S):
    """data of other types is refused"""
    calls = []
    lookup(S, calls)
    v = {"number": 1, "text": "GRIB", "none": None, "list": [1.0], "dict": {"a": 1}, "object": S.token("x")}[S.choice("kind", "number", "text", "none", "list", "dict", "object")]
    refused = False
    try:
        interpolate(v, {"grid": [1, 1]}, {"grid": [2, 2]})
    except ValueError:
        refused = True
    S.check("refused", refused)
    S.check("nothing is looked up", len(calls) == 0)


def some_fields(S):
    return Fields(S.sequence("fields", lambda k: Field(S, S.pure("values", k), Metadata(S.pure("grid", k), S.pure("metadata", k)))))


@harness(timeout=150, split={"output": 4})
def fields(S):
    """field lists: one field for each, as regrid gives them, from the input grid given or the field's own"""
    asked = data(S, Arrays(S))
    ds = some_fields(S)
    grid = dict(S.choice("output", *LATLON))
    given = dict(grid)
    source = S.choice("inventory", {}, {"matrix_source": None}, {"matrix_source": "/inventory"})
    options = dict(source)
    method = "linear"
    if S.choice("method given", True, False):
        method = S.text("method")
        options["method"] = method
    own = S.choice("input grid", "own", "none", "given")
    gi = S.opaque("input grid")
    if own == "none":
        options["in_grid"] = None
    elif own == "given":
        options["in_grid"] = gi
    r = interpolate(ds, out_grid=grid, **options)
    S.check("the inventory asked for", asked == [("precomputed", {"inventory": "/inventory"} if "/inventory" in source.values() else {})])
    want = fl_spec(given)

    def same(f, g):
        return g.values == S.pure("regridded", f.values, gi if own == "given" else f.md.gridspec, g.md.gridspec, method) and g.md.gridspec == want and g.md.rest == f.md.rest
    S.matched("each field is regridded from its own grid or the one given", ds.items, r.items, same)
    S.check("the caller's grid is not modified", grid == given)


@harness(timeout=150, split={"output": len(OTHER)})
def fields_refused(S):
    """other targets, fields without a grid, a backend argument"""
    data(S, Arrays(S))
    kind = S.choice("refused for", "target", "no grid", "unknown grid", "backend")
    ds = some_fields(S)
    grid = S.choice("output", *OTHER) if kind == "target" else {"grid": [1, 1]}
    more = {"backend": S.choice("backend", "precomputed", "mir", None)} if kind == "backend" else {}
    if kind in ("no grid", "unknown grid"):
        ds = Fields([Field(S, S.opaque("first"), Metadata(S.opaque("grid of the first"), None)),
                     Field(S, S.opaque("second"), Metadata(None, None) if kind == "no grid" else NoMetadata())])
    refused = False
    try:
        interpolate(ds, out_grid=dict(grid), **more)
    except ValueError:
        refused = True
    except KeyError:
        refused = kind == "unknown grid"
    S.check("refused", refused)


@harness(symbolic=False, samples=60, search_s=5)
def real(S):
    """run time: real inventories with random weights"""
    import numpy as np
    from scipy.sparse import csr_array, save_npz
    rng = np.random.default_rng(S.int("seed", 0, 10**6))
    gi = {"grid": [S.choice("dx", 30, 45, 90)] * 2}
    go, (oi, oj) = S.choice("out", ({"grid": [90, 90]}, (3, 4)), ({"grid": [60, 60]}, (4, 6)), ({"grid": [90, 90], "area": [10, 0, 10, 270]}, (1, 4)),
                            ({"grid": [90, 90], "area": [90, 10, -90, 10]}, (3, 1)))
    ni, nj = int(180 / gi["grid"][0]) + 1, int(360 / gi["grid"][0])
    method = S.choice("stored", "linear", "nearest-neighbour", "grid-box-average", "Linear-2")
    asked = S.choice("asked", method, method, "linear", "nn", "nearest-neighbor")
    with tempfile.TemporaryDirectory() as root:
        os.makedirs(os.path.join(root, f"mir_1_{method}"))
        w = csr_array(rng.random((oi * oj, ni * nj)) * (rng.random((oi * oj, ni * nj)) < 0.2))
        save_npz(os.path.join(root, f"mir_1_{method}", "m.npz"), w)
        with open(os.path.join(root, "index.json"), "w") as f:
            json.dump({"version": 1, "matrix": {"m": {"input": dict(gi, type="regular_ll", shape=[ni, nj]), "output": dict(go, type="regular_ll", shape=[oi, oj]), "interpolation": {"engine": "mir", "version": "1", "method": method}}}}, f)
        v = rng.random((ni, nj))
        if S.int("form", 0, 2) == 0:
            v = v.ravel()
        elif S.int("order", 0, 2) == 0:
            v = np.asfortranarray(v)
        if S.int("nan", 0, 3) == 0:
            v.reshape(-1)[rng.integers(v.size)] = np.nan
        kept = v.copy()
        # which inventory: by its path, as the one of the system, or none that exists
        S.patch(db_module, "SYS_DB", MatrixDb.from_path(root))
        S.patch(backends.BackendMaker, "BACKEND_OBJECTS", {})
        source = S.choice("source", root, root, "default", None, "ecmwf", "")
        old, how = attempt(lambda: interpolate(v, dict(gi), dict(go), method=asked, **({} if source == "default" else {"matrix_source": source})))
        new, how2 = attempt(lambda: array_regrid(v, dict(gi), dict(go), interpolation=asked, backend="precomputed", **({} if source == "default" else {"inventory": source})))
        known = source != "" and ( method == asked or method == "nearest-neighbour" and asked in ("nn", "nearest-neighbor"))
        S.check("refused exactly when regrid refuses", how == how2)
        S.check("found when it is there", (how == "ok") == known)
        S.check("the caller's values are not modified", np.array_equal(v, kept, equal_nan=True))
        if how == "ok":
            S.check("the same values and shape as regrid", old.shape == new[0].shape == (oi, oj) and np.array_equal(old, new[0], equal_nan=True))
