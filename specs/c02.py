"""C02 Weights are selected for exactly the request, never substituted."""
import json
import os
import tempfile

from pyvc.harness import harness
from earthkit.regrid.array import regrid as array_regrid
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends import precomputed
from earthkit.regrid.backends.db import MatrixDb, MatrixIndex
from earthkit.regrid.gridspec import GridSpec
from specs import grids
from specs.inventory import Accessor, Grid, abstract_grids, entry, entry_method, grids_equal, index_of, meant

PROPERTY = "C02"
LEVEL_NOTE = "inventories of any size (search loop verified for an arbitrary entry); grid equality is C03's contract; for the composition with real grids see the run-time harness"
ASSUMPTIONS = ["names in an inventory are distinct (it is a dictionary)"]


def asked(S):
    return S.choice("asked", "nn", "nearest-neighbor", "nearest-neighbour", "linear", "grid-box-average", "other")


def request(S):
    """-> input grid, output grid, method"""
    m = asked(S)
    if m == "other":
        m = S.text("method asked")
        S.assume(m != "nn" and m != "nearest-neighbor")
    return Grid(S, S.opaque("input asked")), Grid(S, S.opaque("output asked")), m


def suits(S, gi, go, m):
    def f(e):
        return S.all_of(entry_method(e) == m, grids_equal(S, e["input"], gi), grids_equal(S, e["output"], go))
    return f


@harness(timeout=150)
def index(S):
    """MatrixIndex.find: the first entry, in order, with equal grids and exactly the method"""
    abstract_grids(S)
    inv = S.inventory("inventory", lambda k: entry(S, k, S.plain("name")))
    idx = index_of(S, inv)
    gi, go, m = request(S)
    r = idx.find(gi, go, m)
    S.check("the first entry with these grids and this method, or none", S.is_first(inv, r, suits(S, gi, go, m)))


@harness(timeout=150)
def database(S):
    """MatrixDb.find_entry: the same for the method the request means"""
    abstract_grids(S)
    inv = S.inventory("inventory", lambda k: entry(S, k, S.plain("name")))
    S.patch(MatrixIndex, "load", lambda self, path: S.fill(self, inv))
    acc = Accessor(S, True)
    db = MatrixDb(acc)
    gi, go, m = request(S)
    r = db.find_entry(gi, go, m)
    S.check("the first entry with these grids and the method meant, or none", S.is_first(inv, r, suits(S, gi, go, meant(m))))
    S.check("the index is read once", acc.indexes == 1)


@harness(timeout=150)
def nothing_found(S):
    """when no entry is found nothing is computed: ValueError"""
    gi, go, m = S.token("input"), S.token("output"), S.text("method")
    found = S.choice("found", True, False)
    w, shape = S.weights("w", 6, 4), (6,)
    S.patch(MatrixDb, "find", lambda self, a, b, c, **kw: (w, shape) if found else (None, None))
    values = S.array("values", 4)
    r = None
    refused = False
    try:
        r = array_regrid(values, gi, go, interpolation=m, backend="precomputed", inventory="/inventory")
    except ValueError:
        refused = True
    S.check("refused exactly when nothing is selected", refused == (not found))
    S.check("no data without weights", found or r is None)


@harness(timeout=150)
def lookup(S):
    """MatrixDb.find with an empty cache: weights are loaded for the selected entry only; without one there are none"""
    from earthkit.regrid.utils import memcache
    from specs.memcache import Settings
    S.patch(memcache, "CONFIG", Settings(None, S.choice("policy", "unlimited", "off"), False))
    S.patch(memcache, "MEMORY_CACHE", memcache.MemoryCache(size_fn=lambda m: 1))
    loads = []
    found = S.choice("found", True, False)
    e = {"_name": "m", "output": {"shape": [2, 3]}, "interpolation": {"engine": "mir", "version": "1", "method": "linear"}}
    z = S.token("weights")
    calls = []

    def find_entry(self, gi, go, m):
        calls.append((gi, go, m))
        return e if found else None

    def load_matrix(self, entry):
        loads.append(entry)
        return z
    S.patch(MatrixDb, "find_entry", find_entry)
    S.patch(MatrixDb, "load_matrix", load_matrix)
    db = MatrixDb(Accessor(S))
    m = S.text("method")
    gi, go = {"grid": [1, 1]}, {"grid": [2, 2]}
    r = db.find(gi, go, m)
    S.check("one selection", len(calls) == 1)
    S.check("for the grids and method asked", calls[0][2] == m and calls[0][0]["grid"] == [1, 1] and calls[0][1]["grid"] == [2, 2])
    if found:
        S.check("the weights of the selected entry", len(loads) == 1 and loads[0] is e and r[0] is z)
    else:
        S.check("nothing is loaded without an entry", len(loads) == 0 and r[0] is None and r[1] is None)


ALL = ({"grid": [10, 10]}, {"grid": [10, 10.0000001]}, {"grid": [10, 20]}, {"grid": [10, 10], "area": [80, 0, -80, 350]}, {"grid": "O32"}, {"grid": "N32"}, {"grid": "o32"},
        {"grid": "H4", "order": "ring"}, {"grid": "H4", "order": "nested"}, {"grid": "H4"}, {"grid": "eORCA025_T"}, {"grid": "ORCA025_T"})


@harness(symbolic=False, samples=150, search_s=5)
def real(S):
    """run time: real inventories and grids, in files"""
    rng_n = S.int("entries", 0, 8)
    REAL = S.choice("grids", ALL, ALL[:3], ALL[4:7], ALL[7:10], ALL[2:3])
    methods = ("linear", "nearest-neighbour", "nn", "grid-box-average")
    matrix = {}
    for k in range(rng_n):
        m = S.choice("method", *methods)
        matrix[f"m{S.int('name', 0, 99)}_{k}"] = {"input": dict(S.choice("in", *REAL)), "output": dict(S.choice("out", *REAL)),
                                                   "interpolation": {"engine": "mir", "version": "1", "method": m if S.int("form", 0, 1) else {"type": m}}}
    with tempfile.TemporaryDirectory() as top:
        with open(os.path.join(top, "index.json"), "w") as f:
            json.dump({"version": 1, "matrix": matrix}, f)
        db = MatrixDb.from_path(top)
        for _ in range(6):
            gi, go, m = dict(S.choice("in", *REAL)), dict(S.choice("out", *REAL)), S.choice("asked", *methods, "nearest-neighbor", "Linear", "", "NN", "Nearest-Neighbour", "nearest_neighbour")
            want = None
            for name, e in matrix.items():
                a, b = GridSpec.from_dict(dict(e["input"])), GridSpec.from_dict(dict(e["output"]))
                ok = grids.grids_equal(S, a, GridSpec.from_dict(dict(gi))) and grids.grids_equal(S, b, GridSpec.from_dict(dict(go)))
                if ok and entry_method(e) == meant(m):
                    want = name
                    break
            got = db.find_entry(gi, go, m)
            S.check("the first entry with these grids and the method meant, or none", (got["_name"] if got is not None else None) == want)
