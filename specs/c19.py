"""C19 Field lists and xarray objects are regridded element by element."""
import os

import earthkit.data
import mir
import numpy as np
import xarray as xr

from pyvc.harness import harness
from earthkit.regrid import backends
from earthkit.regrid import regrid
from earthkit.regrid.data import xarray as xdata
from specs.fields import LATLON, OTHER, Arrays, Field, Fields, Messages, Metadata, NoField, NoMetadata, NotField, data, fl_spec

PROPERTY = "C19"
LEVEL_NOTE = ("earthkit-data, xarray.apply_ufunc and mir.Grid are replaced by contracts (element-wise accessors, a function applied to each slice, the shape of a grid), "
              "compared with the real libraries at run time only; field lists and slices are unbounded, numbers of other dimensions, of variables and the sorts of grids are enumerated; coordinates are not covered")
ASSUMPTIONS = ["earthkit-data field lists iterate, concatenate and build fields from arrays or messages in order",
               "xarray.apply_ufunc with vectorize=True applies the function to each slice with the core dimensions in the order given and casts results to output_dtypes",
               "the backends are functions of values, grids and method (C01-C05, C20)"]


@harness(timeout=150)
def array_fields(S):
    """every field by its own grid, in order, on the precomputed backend"""
    backend = Arrays(S)
    asked = data(S, backend)
    ds = Fields(S.sequence("fields", lambda k: Field(S, S.pure("values", k), Metadata(S.pure("grid", k), S.pure("metadata", k)))))
    grid = dict(S.choice("grid", *LATLON))
    given = dict(grid)
    method = S.text("method")
    more = S.choice("inventory", {}, {"inventory": "/inventory"})
    r = regrid(ds, grid=grid, interpolation=method, backend="precomputed", **more)
    S.check("the backend is the one asked for", asked == [("precomputed", more)])
    want = fl_spec(given)

    def same(f, g):
        return g.values == S.pure("regridded", f.values, f.md.gridspec, g.md.gridspec, method) and g.md.gridspec == want and g.md.rest == f.md.rest
    S.matched("each field is regridded from its own grid to the requested one", ds.items, r.items, same)
    S.check("the caller's grid is not modified", grid == given)


@harness(timeout=150, split={"grid": len(OTHER)})
def other_targets(S):
    """any other target is refused, whatever the fields"""
    asked = data(S, Arrays(S))
    one = S.choice("a single field", False, True)
    f = Field(S, S.opaque("values"), Metadata(S.opaque("grid of the field"), S.opaque("metadata")))
    ds = f if one else Fields(S.sequence("fields", lambda k: Field(S, S.pure("values", k), Metadata(S.pure("grid", k), S.pure("metadata", k)))))
    grid = dict(S.choice("grid", *OTHER))
    refused = False
    try:
        regrid(ds, grid=grid, backend="precomputed")
    except ValueError:
        refused = True
    S.check("refused with ValueError", refused)


@harness(timeout=150)
def no_target(S):
    data(S, Arrays(S))
    refused = False
    try:
        regrid(Fields([]), backend=S.choice("backend", "precomputed", "mir"))
    except ValueError:
        refused = True
    S.check("refused with ValueError", refused)


@harness(timeout=150)
def messages(S):
    """every message by the same options, in order, with MIR"""
    asked = data(S, Messages(S))
    kind = S.choice("fields", "messages", "arrays")

    def field(k):
        if kind == "messages":
            return Field(S, S.pure("values", k), Metadata(S.pure("grid", k), S.pure("metadata", k)), S.pure("message", k))
        return NotField(S.pure("values", k), Metadata(S.pure("grid", k), S.pure("metadata", k)), S.pure("handle", k))
    ds = Fields(S.sequence("fields", field))
    grid = S.opaque("grid")
    method = S.text("method")
    r = regrid(ds, grid=grid, interpolation=method, backend="mir")
    S.check("the backend is the one asked for", asked == [("mir", {})])

    def same(f, g):
        m = f.msg if kind == "messages" else S.pure("encoded", f.handle)
        return g.msg == S.pure("regridded message", m, grid, method)
    S.matched("each message is regridded as such", ds.items, r.items, same)


@harness(timeout=150)
def one_field(S):
    """a single field gives a single field"""
    kind = S.choice("backend", "precomputed", "mir")
    data(S, Arrays(S) if kind == "precomputed" else Messages(S))
    f = Field(S, S.opaque("values"), Metadata(S.opaque("grid of the field"), S.opaque("metadata")), S.opaque("message"))
    grid = dict(S.choice("grid", *LATLON))
    g = regrid(f, grid=grid, interpolation="linear", backend=kind)
    if kind == "mir":
        S.check("the message is regridded", g.msg == S.pure("regridded message", f.msg, grid, "linear"))
    else:
        S.check("the field is regridded", g.values == S.pure("regridded", f.values, f.md.gridspec, g.md.gridspec, "linear") and g.md.gridspec == fl_spec(grid) and g.md.rest == f.md.rest)


@harness(timeout=150)
def unknown_grid(S):
    """a field without a grid, or of another kind, is refused: nothing is made up for it"""
    kind = S.choice("field", "no grid", "not known", "other")
    data(S, Messages(S) if kind == "other" else Arrays(S))
    if kind == "other":
        f = NoField()
    else:
        f = Field(S, S.opaque("values"), Metadata(None, None) if kind == "no grid" else NoMetadata())
    ds = Fields([Field(S, S.opaque("first values"), Metadata(S.opaque("grid of the first"), None), S.opaque("message")), f])
    refused = False
    try:
        regrid(ds, grid={"grid": [1, 1]}, backend="mir" if kind == "other" else "precomputed")
    except Exception:
        refused = True
    S.check("refused", refused)


# ------------------------------------------------------------------------------- contract of xarray
class World:
    """the sizes of the horizontal dimensions of the grid asked for"""

    out_sizes = ()


LEADS = ((), ("time",), ("level", "time", "number"))
TYPES = (("float64", False), ("float32", True), ("int64", True), ("bool", False))
LATLON_DIMS = ("latitude", "longitude")


class Array:
    """a data array: one horizontal slice (with the core dimensions in a given order) for each element of lead"""

    def __init__(self, S, dims, sizes, dtype, lead, cut, chunked=False, attrs=None):
        self.S, self.dims, self.sizes, self.dtype, self.lead, self.cut, self.chunked = S, dims, sizes, dtype, lead, cut, chunked
        self.attrs = {} if attrs is None else attrs
        self.coords = {}


class Set:
    """a data set"""

    def __init__(self, data_vars=None, attrs=None):
        self.data_vars = {} if data_vars is None else data_vars
        self.attrs = {} if attrs is None else attrs
        self.coords = {}

    @property
    def sizes(self):
        r = {}
        for v in self.data_vars.values():
            for d in v.dims:
                if d not in r:
                    r[d] = v.sizes[d]
        return r

    @property
    def dims(self):
        return self.sizes

    def __setitem__(self, name, v):
        self.data_vars[name] = v

    def __getitem__(self, name):
        return self.data_vars[name]


def apply_ufunc(func, *args, input_core_dims=None, output_core_dims=((),), exclude_dims=frozenset(), vectorize=False, dask="forbidden",
                dask_gufunc_kwargs=None, output_dtypes=None, keep_attrs=None, **other):
    """contract: func for every slice, in any order, each result cast to the output type"""
    (da,) = args
    S = da.S
    (core,), (out,) = input_core_dims, output_core_dims
    S.check("slice by slice", vectorize is True and other == {})
    for d in core:
        if d not in da.dims:
            raise ValueError(d)
    for d in out:
        if d in core and d not in exclude_dims and da.sizes[d] != World.out_sizes[out.index(d)]:
            raise ValueError("inconsistent size for core dimension")
        if d not in core and d in da.dims:
            raise ValueError(d)
    if da.chunked:
        S.check("the type and the sizes of the result are announced", output_dtypes is not None and dask == "parallelized"
                and [dask_gufunc_kwargs["output_sizes"][d] for d in out] == list(World.out_sizes))
    results = []
    for k in da.lead:
        results.append(func(da.cut(k, tuple(core))))
    dims = tuple([d for d in da.dims if d not in core] + list(out))
    sizes = {d: da.sizes[d] for d in da.dims if d not in core}
    r = Array(S, dims, sizes, np.dtype(output_dtypes[0]) if output_dtypes is not None else None, results, None, da.chunked)
    return r


class Grid:
    """contract of mir.Grid: the grid of a specification"""

    def __init__(self, **spec):
        self._spec = spec

    @property
    def spec(self):
        return dict(self._spec)

    @property
    def shape(self):
        return tuple(World.out_sizes)


class Slices(Arrays):
    """a backend for arrays that describes the grid of the result in its own words"""

    def regrid(self, values, in_grid, out_grid, interpolation="linear", **kwargs):
        v, g = Arrays.regrid(self, values, in_grid, out_grid, interpolation, **kwargs)
        return v, dict(g, described="otherwise")


def x_world(S, same_words):
    S.patch(xr, "apply_ufunc", apply_ufunc)
    S.patch(xr, "DataArray", Array)
    S.patch(xr, "Dataset", Set)
    S.patch(mir, "Grid", Grid)
    S.patch(xdata.XarrrayGeographyBuilder, "coords", lambda self: ({}, {}, {}))
    backend = Arrays(S) if same_words else Slices(S)

    def get_backend(name, **kwargs):
        S.check("the backend is the one asked for", name == "some backend" and kwargs == {})
        return backend
    S.patch(backends, "get_backend", get_backend)


def an_array(S, n, core, bounded, attrs=None, leads=LEADS, types=TYPES):
    lead = S.choice(n + "other dimensions", *leads)
    dims = lead + core
    sizes = {d: S.int(n + d, 1) for d in dims}
    kind, chunked = S.choice(n + "type", *types)
    dtype = np.dtype(kind)

    def cut(k, order):
        return S.pure(n + "slice", k, order)
    if lead == ():
        ks = [0]
    elif bounded:
        ks = list(range(S.choice("slices", 1, 2, 3)))
    else:
        ks = S.sequence(n + "slices", lambda k: k)
    return Array(S, dims, sizes, dtype, ks, cut, chunked, attrs)


def judge(S, da, r, core, out, in_grid, grid, method):
    lead = tuple([d for d in da.dims if d not in core])
    S.check("the other dimensions are kept, in order", r.dims == lead + tuple(out))
    S.check("numbers are not cut", r.dtype is None or r.dtype.kind in "fc" and (da.dtype.kind != "f" or r.dtype.itemsize >= da.dtype.itemsize))
    S.matched("each slice is regridded on its own", da.lead, r.lead, lambda k, v: v == S.pure("regridded", da.cut(k, tuple(core)), in_grid, grid, method))


def dims_given(S):
    """-> (horizontal dimensions of the input, options)"""
    k = S.choice("input dimensions", "latitude, longitude", "values", "named", "turned", "one name")
    if k == "latitude, longitude":
        return LATLON_DIMS, {}
    if k == "values":
        return ("values",), {}
    if k == "named":
        return ("y", "x"), {"in_dims": ["y", "x"]}
    if k == "turned":
        return ("x", "y"), {"in_dims": ["y", "x"]}
    return ("cell",), {"in_dims": "cell"}


def spec_of(S, kind):
    return {"latlon": {"grid": [2, 2]}, "points": {"grid": "O32"}}[kind]


def horizontal(S, opts, out_kind):
    """-> horizontal dimensions of the result"""
    if S.choice("output dimensions given", False, True):
        opts["out_dims"] = ["row", "column"] if out_kind == "latlon" else "point"
        return ["row", "column"] if out_kind == "latlon" else ["point"]
    return list(LATLON_DIMS) if out_kind == "latlon" else ["values"]


def prepare(S, out_kind):
    S.patch(World, "out_sizes", [S.int("output size", 1), S.int("second output size", 1)] if out_kind == "latlon" else [S.int("output size", 1)])


@harness(timeout=150, split={"input dimensions": 5, "grid": 2})
def arrays(S):
    """every slice of an array of any extra dimensions"""
    core, opts = dims_given(S)
    out_kind = S.choice("grid", "latlon", "points")
    words = S.choice("description", "same", "other")
    x_world(S, words == "same")
    prepare(S, out_kind)
    given_in = {"grid": [1, 1]} if len(core) == 2 else {"grid": "N80"}
    attrs = {"units": "K"}
    if S.choice("input grid", "argument", "attribute") == "attribute":
        attrs["gridspec"] = given_in
    else:
        opts["grid_spec"] = given_in
    da = an_array(S, "", core, words == "other", attrs)
    grid = spec_of(S, out_kind)
    out = horizontal(S, opts, out_kind)
    method = S.text("method")
    kept, dims, grid_kept, attrs_kept = dict(opts), da.dims, dict(grid), dict(attrs)
    in_core = tuple(core) if "in_dims" not in opts else ("y", "x") if len(core) == 2 else core
    r = regrid(da, grid=grid, interpolation=method, backend="some backend", **opts)
    judge(S, da, r, in_core, out, {"grid": given_in["grid"]}, grid_kept, method)
    S.check("the input is not modified", da.dims == dims and da.attrs == attrs_kept and da.coords == {} and grid == grid_kept and opts == kept)
    S.check("a new array is made", r is not da)


@harness(timeout=150)
def sets(S):
    """every variable of a data set"""
    x_world(S, True)
    prepare(S, "latlon")
    a = an_array(S, "a", LATLON_DIMS, False, None, LEADS[:2], TYPES[:2])
    b = an_array(S, "b", LATLON_DIMS, False, None, LEADS, TYPES[1:])
    S.assume(list(Set({"a": a, "b": b}).sizes)[-2:] == list(LATLON_DIMS))
    ds = Set({"a": a, "b": b}, {"gridspec": {"grid": [1, 1]}})
    grid = {"grid": [2, 2]}
    r = regrid(ds, grid=grid, interpolation="linear", backend="some backend")
    S.check("the variables, in order", list(r.data_vars) == ["a", "b"] and list(ds.data_vars) == ["a", "b"])
    for k, v in (("a", a), ("b", b)):
        judge(S, v, r.data_vars[k], LATLON_DIMS, LATLON_DIMS, {"grid": [1, 1]}, {"grid": [2, 2]}, "linear")
        S.check("the input is not modified", ds.data_vars[k] is v and v.coords == {})


# ------------------------------------------------------------------------------- run time, with the real libraries
DB = os.path.join(os.environ.get("PYVC_REPO", "/repo"), "tests", "data", "local", "db")
if not os.path.isdir(DB):
    DB = "/repo/tests/data/local/db"
LOCAL = dict(backend="precomputed", inventory=DB)
MESH = {"[5, 5]": (37, 72, 5), "[10, 10]": (19, 36, 10)}


def a_message(sample, mesh, values, **keys):
    import eccodes
    h = eccodes.codes_grib_new_from_samples(sample)
    if mesh:
        nj, ni, d = MESH[mesh]
        keys = dict(keys, Ni=ni, Nj=nj, latitudeOfFirstGridPointInDegrees=90, latitudeOfLastGridPointInDegrees=-90, longitudeOfFirstGridPointInDegrees=0,
                    longitudeOfLastGridPointInDegrees=360 - d, iDirectionIncrementInDegrees=d, jDirectionIncrementInDegrees=d, jScansPositively=0)
    for k, v in keys.items():
        eccodes.codes_set(h, k, v)
    n = nj * ni if mesh else eccodes.codes_get_size(h, "values")
    eccodes.codes_set_values(h, values(n))
    m = eccodes.codes_get_message(h)
    eccodes.codes_release(h)
    return m


@harness(symbolic=False, samples=12, search_s=8)
def real_fields(S):
    """run time: GRIB fields of several grids, with the precomputed and the MIR backend"""
    from earthkit.regrid.array import regrid as array_regrid
    rng = np.random.default_rng(S.int("seed", 0, 10**6))
    fields, grids = [], []
    for i in range(S.int("fields", 1, 4)):
        sample, step = S.choice("sample", ("regular_ll_sfc_grib2", "[5, 5]"), ("reduced_gg_pl_32_grib2", None), ("regular_ll_sfc_grib2", "[5, 5]"))
        grids.append({"grid": [5, 5] if step else "N32"})
        m = a_message(sample, step, rng.random, step=S.int("step", 0, 100))
        fields.append(earthkit.data.from_source("memory", m)[0])
    if S.int("arrays", 0, 1):
        fields = list(earthkit.data.FieldList.from_array([f.to_numpy(flatten=True) for f in fields], [f.metadata() for f in fields]))
    fl = earthkit.data.FieldList.from_fields(fields)
    if S.choice("backend", "precomputed", "mir") == "precomputed":
        method = S.choice("method", "linear", "nearest-neighbour", "grid-box-average")
        r = regrid(fl, grid={"grid": [10, 10]}, interpolation=method, **LOCAL)
        S.check("one field for each", len(r) == len(fl))
        for f, gi, g in zip(fl, grids, r):
            v, _ = array_regrid(f.to_numpy(flatten=True), f.metadata().gridspec, {"grid": [10, 10]}, interpolation=method, **LOCAL)
            S.check("the values of its own field and grid", g.to_numpy().shape == (19, 36) and np.allclose(g.to_numpy(), v, rtol=0, atol=1e-6))
            S.check("the metadata of its own field", g.metadata("step") == f.metadata("step") and list(g.metadata().gridspec["grid"]) == [10, 10])
    else:
        grid = S.choice("grid", {"grid": [30, 30]}, {"grid": "O8"})
        method = S.choice("method", "linear", "nearest-neighbour")
        r = regrid(fl, grid=dict(grid), interpolation=method)
        S.check("one field for each", len(r) == len(fl))
        for f, gi, g in zip(fl, grids, r):
            v, _ = array_regrid(f.to_numpy(flatten=True), gi, dict(grid), interpolation=method)
            S.check("the values of its own field and grid", np.allclose(g.to_numpy(flatten=True), v.ravel(), rtol=0, atol=1e-4))
            S.check("the metadata of its own field", g.metadata("step") == f.metadata("step"))


@harness(symbolic=False, samples=30, search_s=8)
def real_arrays(S):
    """run time: xarray objects of several dimensions and types, also chunked, with the precomputed and the MIR backend"""
    from earthkit.regrid.array import regrid as array_regrid
    rng = np.random.default_rng(S.int("seed", 0, 10**6))
    local = S.choice("backend", "precomputed", "mir") == "precomputed"
    if local:
        points = S.int("points", 0, 1)
        in_grid, core, shape = ({"grid": "O32"}, ("values",), (5248,)) if points else ({"grid": [5, 5]}, LATLON_DIMS, (37, 72))
        grid, out, size = {"grid": [10, 10]}, LATLON_DIMS, (19, 36)
        opts = dict(LOCAL, interpolation=S.choice("method", "linear", "nearest-neighbour", "grid-box-average"))
    else:
        in_grid, core, shape = S.choice("in", ({"grid": [10, 10]}, LATLON_DIMS, (19, 36)), ({"grid": "O16"}, ("values",), (1600,)))
        grid, out, size = S.choice("out", ({"grid": [30, 30]}, LATLON_DIMS, (7, 12)), ({"grid": "O8"}, ("values",), (544,)))
        opts = {"interpolation": "linear"}

    def array(lead):
        kind = S.choice("type", "float64", "float32", "int64", "uint8", "bool") if local else S.choice("type", "float64", "float32")
        n = tuple([S.int("size", 1, 3) for _ in lead])
        v = rng.random(n + shape) * 100
        v = v > 50 if kind == "bool" else v.astype(kind)
        da = xr.DataArray(v, dims=lead + core, attrs={"units": "K"})
        return da.chunk({d: 1 for d in lead}) if S.int("chunked", 0, 2) == 0 else da

    def compare(da, r):
        lead = da.dims[:-len(core)]
        S.check("the other dimensions are kept, in order", r.dims == lead + out and r.shape == da.shape[:len(lead)] + size)
        S.check("numbers are not cut", r.dtype.kind in "fc" and (da.dtype.kind != "f" or r.dtype == da.dtype))
        got, values = r.values, da.values
        for k in np.ndindex(da.shape[:len(lead)]):
            v, _ = array_regrid(values[k], in_grid, grid, **opts)
            S.check("each slice is regridded on its own", np.allclose(got[k], np.reshape(v, size), rtol=1e-6, atol=1e-5))
    attrs = S.int("attribute", 0, 1)
    spec = {} if attrs else {"grid_spec": dict(in_grid)}
    if S.int("data set", 0, 1):
        lead = S.choice("other dimensions", (), ("time",), ("level", "time"))
        ds = xr.Dataset({"a": array(lead), "b": array(()), "c": array(())}) if lead == () else xr.Dataset({"a": array(lead), "b": array(())})
        if attrs:
            ds.attrs["gridspec"] = dict(in_grid)
        r = regrid(ds, grid=dict(grid), **spec, **opts)
        S.check("the variables, in order", list(r.data_vars) == list(ds.data_vars))
        for k in ds.data_vars:
            compare(ds[k], r[k])
    else:
        da = array(S.choice("other dimensions", (), ("time",), ("level", "time")))
        if attrs:
            da.attrs["gridspec"] = dict(in_grid)
        kept = da.copy(deep=True)
        compare(da, regrid(da, grid=dict(grid), **spec, **opts))
        S.check("the input is not modified", da.identical(kept))
