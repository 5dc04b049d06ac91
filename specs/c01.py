"""C01 Precomputed regridding applies exactly the inventory's weights."""
import json
import os
import tempfile

from pyvc.harness import harness
from earthkit.regrid.array import regrid as array_regrid
from earthkit.regrid import backends
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends.db import MatrixDb, MatrixIndex
from earthkit.regrid.utils import memcache
from specs.inventory import index_of, method_field
from specs.memcache import Settings

PROPERTY = "C01"
LEVEL_NOTE = "selection of the entry is C02's contract; scipy's load_npz is a function of the path; numbers are mathematical (the run-time harness compares with NumPy within 1e-12)"
ASSUMPTIONS = ["load_npz gives the matrix stored in the file", "weights @ values is a function of the weights and the values in C order; reshape keeps the values",
               "download_and_cache gives a local copy of the file at the URL"]

GRIDS = ({"grid": [1, 1]}, {"grid": "O32"}, {"grid": "H4", "order": "nested"}, {"grid": [2, 2], "area": [90, 0, -90, 358], "shape": [3, 4]})


def clone(v):
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    return v


def the_entry(S):
    """any entry of the inventory: its output shape, name, engine, version and method"""
    method, name = method_field(S)
    shape = S.choice("shape", [2, 3], [6])
    e = {"_name": S.plain("name"), "output": {"shape": shape}, "interpolation": {"engine": S.plain("engine"), "version": S.plain("version") if S.choice("version kind", "text", "number") == "text" else S.int("version", 0, 99), "method": method}}
    if S.choice("record", "plain", "with other keys, a dot in its name") != "plain":
        e["_name"] = e["_name"] + ".v2"
        e["interpolation"]["_uid"], e["interpolation"]["name"] = S.plain("uid"), S.plain("other name")
        e["name"], e["_path"] = S.plain("entry name"), S.plain("entry path")
    return e, name


def file_of(e, method_name):
    i = e["interpolation"]
    return i["engine"] + "_" + str(i["version"]) + "_" + method_name + "/" + e["_name"] + ".npz"


@harness(timeout=150, split={"kind": 2, "policy": 2})
def regridding(S):
    """the values regridded with the weights in the file of the selected entry; twice, also when they are remembered"""
    S.patch(memcache, "CONFIG", Settings(None, S.choice("policy", "unlimited", "off"), False))
    S.patch(memcache, "MEMORY_CACHE", memcache.MemoryCache(size_fn=lambda m: 1))
    S.patch(backends.BackendMaker, "BACKEND_OBJECTS", {})
    kind = S.choice("kind", "path", "url")
    root = "/top/" + S.plain("dir") if kind == "path" else "https://host/" + S.plain("dir")
    e, method_name = the_entry(S)
    asked = []

    def find_entry(self, gi, go, m):
        asked.append((clone(dict(gi)), clone(dict(go)), m))
        return e
    S.patch(MatrixDb, "find_entry", find_entry)
    # the inventory's own index has nothing to do with it
    S.patch(MatrixIndex, "load", lambda self, path: None)
    where = root + "/" + file_of(e, method_name)
    local = S.pure_text("copy", where) if kind == "url" else where
    downloads, loads = [], []

    def download(url, **kwargs):
        downloads.append(url)
        return S.pure_text("copy", url)
    S.patch(db_module, "download_and_cache", download)
    S.patch(db_module.UrlAccessor, "index_path", lambda self: "/cache/index")
    w = S.weights("w", 6, 4)

    def load_npz(path):
        loads.append(path)
        return w
    S.patch(db_module, "load_npz", load_npz)
    gi, go = clone(S.choice("input grid", *GRIDS)), clone(S.choice("output grid", *GRIDS))
    gi0, go0 = clone(gi), clone(go)
    e_shape = list(e["output"]["shape"])
    for i in range(2):
        values = S.array("values", 4)
        kept = S.keep(values)
        m = S.text("method")
        r, g = array_regrid(values, gi, go, interpolation=m, backend="precomputed", inventory=root)
        S.check("the weights times the values in the entry's output shape", S.is_product(r, w, kept, e["output"]["shape"]))
        S.check("with the requested output grid", g == go0)
        S.check("the caller's values are not modified", S.unchanged(values, kept))
        S.check("the caller's grids are not modified", gi == gi0 and go == go0)
        S.check("the inventory's entry is not modified", list(e["output"]["shape"]) == e_shape)
    for p in loads:
        S.check("read from the file the inventory describes", p == local)
    S.check("read", len(loads) >= 1)
    for u in downloads:
        S.check("the file is that of the inventory", u == where)
    for q in asked:
        S.check("the grids asked for", q[0]["grid"] == gi0["grid"] and q[1]["grid"] == go0["grid"])


@harness(symbolic=False, samples=60, search_s=5)
def real(S):
    """run time: real inventories with random weights in files, several grids and methods, also with caching off or limited"""
    import numpy as np
    from scipy.sparse import csr_array, csr_matrix, save_npz
    from specs.memcache import settings
    rng = np.random.default_rng(S.int("seed", 0, 10**6))
    c = memcache.MemoryCache(size_fn=lambda m: m.data.nbytes)
    st = settings(S, "s")
    st.values["weights-memory-cache-strict-mode"] = False
    S.patch(memcache, "CONFIG", st)
    c.update()
    S.patch(memcache, "MEMORY_CACHE", c)
    ins = [({"grid": [30, 30]}, [7, 12]), ({"grid": "O2"}, [sum(2 * (20 + 4 * i) for i in range(2))]), ({"grid": [90, 90]}, [3, 4])]
    outs = [({"grid": [90, 90]}, [3, 4]), ({"grid": [60, 60]}, [4, 6]), ({"grid": "H1", "order": "ring"}, [12]), ({"grid": [90, 90], "area": [0, 0, 0, 0]}, [1]), ({"grid": [90, 90], "area": [10, 0, 10, 270]}, [1, 4])]
    methods = ["linear", "nearest-neighbour", "grid-box-average"]
    with tempfile.TemporaryDirectory() as root:
        matrix, ws = {}, {}
        for k in range(S.int("entries", 1, 6)):
            (gi, si), (go, so), m = S.choice("in", *ins), S.choice("out", *outs), S.choice("method", *methods)
            if (str(gi), str(go), m) in ws:
                continue
            rows, cols = int(np.prod(so)), int(np.prod(si))
            dense = rng.random((rows, cols)) * (rng.random((rows, cols)) < 0.3)
            z = (csr_array if S.int("array", 0, 1) else csr_matrix)(dense)
            engine, version = S.choice("engine", "mir", "Eng"), S.choice("version", "1", "16a", "16A")
            os.makedirs(os.path.join(root, f"{engine}_{version}_{m}"), exist_ok=True)
            save_npz(os.path.join(root, f"{engine}_{version}_{m}", f"n{k}.{k}.npz"), z)
            matrix[f"n{k}.{k}"] = {"input": dict(gi, shape=si), "output": dict(go, shape=so), "interpolation": {"engine": engine, "version": version, "method": m}}
            ws[(str(gi), str(go), m)] = (dense, gi, go, so, si)
        with open(os.path.join(root, "index.json"), "w") as f:
            json.dump({"version": 1, "matrix": matrix}, f)
        names = list(ws)
        for _ in range(5):
            k = S.choice("which", *names)
            dense, gi, go, so, si = ws[k]
            v = rng.standard_normal(si)
            kind = S.choice("values", "float64", "float64", "float32", "int64", "large")
            v = v * 1e300 if kind == "large" else (v * 1000).astype(kind)
            if kind[0] == "f" and S.int("special", 0, 3) == 0:
                v.reshape(-1)[rng.integers(v.size)] = S.choice("value", np.nan, np.inf, -np.inf, -0.0)
            if S.int("flat", 0, 2) == 0:
                v = v.ravel()
            elif S.int("order", 0, 2) == 0:
                v = np.asfortranarray(v)
            elif S.int("view", 0, 2) == 0:
                v = np.repeat(v, 2, axis=-1)[..., ::2]
            v.flags.writeable = S.int("readonly", 0, 1) == 0
            kept, gi1, go1 = v.copy(), clone(gi), clone(go)
            try:
                r, g = array_regrid(v, gi1, go1, interpolation=k[2], backend="precomputed", inventory=root)
            except ValueError:
                S.check("an entry is found", False)
            S.check("the weights times the values in the entry's output shape", list(r.shape) == so and np.allclose(r.ravel(), (csr_array(dense) @ np.reshape(kept, (-1, 1))).ravel(), rtol=1e-12, atol=1e-12, equal_nan=True))
            S.check("with the requested output grid", g == go)
            S.check("the caller's values are not modified", np.array_equal(v, kept, equal_nan=True) and v.shape == kept.shape and v.dtype == kept.dtype)
            S.check("the caller's grids are not modified", gi1 == gi and go1 == go)
