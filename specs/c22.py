"""C22 Inventories that are built can be read back and found."""
import json
import os
import tempfile

from pyvc.harness import harness
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends.db import MatrixDb, MatrixIndex
from earthkit.regrid.utils import builder, matrix, memcache
from specs.memcache import Settings

PROPERTY = "C22"
LEVEL_NOTE = ("any existing inventory (any size), any numbers and names in the entry; decoding the MIR matrix is C21's contract, loading and searching "
              "larger inventories are C23's and C02's")
ASSUMPTIONS = ["the json module loads what it dumped", "SHA-256 digests of different records differ", "load_npz gives what save_npz stored"]


class Part:
    def __init__(self, nbytes):
        self.nbytes = nbytes


class Weights:
    """a sparse matrix as far as its size goes"""

    def __init__(self, S):
        self.data, self.indptr, self.indices = Part(S.int("data bytes", 0)), Part(S.int("indptr bytes", 0)), Part(S.int("indices bytes", 0))

    def size(self):
        return self.data.nbytes + self.indptr.nbytes + self.indices.nbytes


GB = {"type": "grid-box-average", "nonLinear": [{"type": "missing-if-heaviest-missing"}], "solver": {"type": "multiply"}, "cropping": False,
      "lsmWeightAdjustment": 0.2, "pruneEpsilon": 1e-10, "poleDisplacement": 0}


def clone(v):
    if isinstance(v, (list, tuple)):
        return [clone(x) for x in v]
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    return v


def a_grid(S, n, kinds=("regular_ll", "reduced_gg", "healpix", "orca")):
    """-> description of a grid as MIR gives it, the grid specification it means"""
    kind = S.choice(n + " type", *kinds)
    e = {"type": kind}
    if kind == "healpix":
        e["grid"], e["order"] = "H" + S.plain(n + ".H"), S.choice(n + ".order", "ring", "nested")
        return e, {"grid": e["grid"], "order": e["order"]}
    if kind == "orca":
        e["unstructuredGridType"], e["unstructuredGridSubtype"] = S.plain(n + ".orca"), S.plain(n + ".sub")
        return e, {"grid": e["unstructuredGridType"] + "_" + e["unstructuredGridSubtype"]}
    b = {k: S.real(n + "." + k) for k in ("north", "west", "south", "east")}
    e["bbox"] = b
    d = {"area": [b["north"], b["west"], b["south"], b["east"]]}
    if kind == "regular_ll":
        e["increments"] = {"south_north": S.real(n + ".dy"), "west_east": S.real(n + ".dx")}
        e["ni"], e["nj"] = S.int(n + ".ni", 1), S.int(n + ".nj", 1)
        d["grid"], d["shape"] = [e["increments"]["west_east"], e["increments"]["south_north"]], [e["nj"], e["ni"]]
    else:
        p0, p1, rest = S.int(n + ".pl0", 1), S.int(n + ".pl1", 1), S.int(n + ".pl2", 1)
        e["pl"], e["N"] = [p0, p1, rest], S.int(n + ".N", 1)
        d["grid"], d["shape"] = ("O" if p1 - p0 == 4 else "N") + str(e["N"]), [p0 + p1 + rest]
    if S.choice(n + ".has global", False, True):
        e["global"] = S.choice(n + ".global", 0, 1)
        d["global"] = e["global"]
    return e, d


def an_interpolation(S, n="", plain=False):
    i = {"engine": S.plain(n + "engine"), "version": 16 if plain else S.choice(n + "version", 16, "16")}
    k = S.choice(n + "method", "text", "gridbox", "gridbox record", "other gridbox record", "record")
    if k == "text":
        i["method"] = S.plain(n + "name")
        name = i["method"]
    elif k == "gridbox":
        i["method"] = name = "grid-box-average"
    elif k == "gridbox record":
        i["method"], name = clone(GB), "grid-box-average"
    elif k == "other gridbox record":
        i["method"], name = dict(clone(GB), pruneEpsilon=S.real(n + "epsilon", 0, 1)), "grid-box-average"
    else:
        name = S.plain(n + "name")
        i["method"] = {"type": name, "solver": {"type": S.plain(n + "solver")}}
    if not plain and S.choice(n + "other option", False, True):
        i["option"] = S.plain(n + "option")
    return i, name


def turned(x):
    """the same value with its dictionaries filled in another order"""
    if isinstance(x, dict):
        return {k: turned(x[k]) for k in reversed(list(x))}
    if isinstance(x, list):
        return [turned(y) for y in x]
    return x


class Tools:
    """converter and reader of matrices (C21)"""

    def __init__(self, S):
        self.S, self.w = S, Weights(S)
        self.made = []

    def install(self):
        self.S.patch(builder, "mir_cached_matrix_to_file", self.convert)
        self.S.patch(builder, "load_npz", self.load)
        self.S.patch(db_module, "load_npz", self.load)

    def convert(self, path, target):
        self.made.append((path, target))
        self.S.write(target, "weights")

    def load(self, path):
        self.S.check("only what was converted is read", path == self.made[-1][1])
        return self.w


def expected(d, flag):
    """the grid of a record, with the default given for a global flag"""
    d = dict(d)
    if flag is not None and "global" not in d and "area" in d:
        d["global"] = 1 if flag else 0
    return d


PLAIN = {"engine": "mir", "version": 16, "method": "linear"}
RING = {"type": "healpix", "grid": "H4", "order": "ring"}


def make(S, d, inp, out, inter, nnz, top=None, **kw):
    """build one matrix -> (tools, index document, the entry's name, entry)"""
    cache_file = "/mir/" + S.plain("file")
    engine, version, method = inter["engine"], inter["version"], inter["method"]
    if not isinstance(method, str):
        method = method["type"]
    S.write(d + "/entry.json", S.json_text({"input": inp, "output": out, "interpolation": inter, "matrix": {"cache_file": cache_file, "nnz": nnz}}))
    t = Tools(S)
    t.install()
    top = top or d + "/out"
    builder.make_matrix(d + "/entry.json", top, **kw)
    S.check("one matrix is written", len(t.made) == 1 and t.made[0][0] == cache_file)
    where = t.made[0][1]
    doc = json.loads(S.content(kw.get("index_file") or top + "/index.json"))
    S.check("version", doc["version"] == 1)
    prefix, suffix = top + "/" + engine + "_" + str(version) + "_" + method + "/", ".npz"
    S.check("the file is where the inventory looks for it", where.startswith(prefix) and where.endswith(suffix))
    name = os.path.splitext(os.path.basename(where))[0]
    S.check("the name of the file", where == prefix + name + suffix)
    r = doc["matrix"].get(name)
    S.check("an entry under the name of the file", r is not None)
    return t, doc, name, r


@harness(timeout=150, split={"input type": 4})
def grids(S):
    """the record's grids are those of the matrix"""
    d = S.scratch()
    ie, ig = a_grid(S, "input")
    oe, og = clone(RING), {"grid": "H4", "order": "ring"}
    if S.choice("other grid", "plain", "regular") == "regular":
        oe, og = a_grid(S, "output", ("regular_ll",))
    fi, fo = S.choice("global input", None, True, False), S.choice("global output", None, True)
    want_in, want_out = expected(ig, fi), expected(og, fo)
    nnz = S.int("nnz", 0)
    t, doc, name, r = make(S, d, ie, oe, clone(PLAIN), nnz, global_input=fi, global_output=fo)
    S.check("the input grid", r["input"] == want_in)
    S.check("the output grid", r["output"] == want_out)
    S.check("the size of the matrix", r["memory"] == t.w.size())
    S.check("the number of entries", r["nnz"] == nnz)


@harness(timeout=150)
def interpolation(S):
    """the record's interpolation is that of the matrix"""
    d = S.scratch()
    i, method = an_interpolation(S)
    given = clone(i)
    t, doc, name, r = make(S, d, clone(RING), clone(RING), i, 1)
    got = r["interpolation"]
    S.check("engine and version", got["engine"] == given["engine"] and got["version"] == given["version"])
    S.check("the method", MatrixIndex.interpolation_method_name(r) == method)
    S.check("options of the method", got["method"] == given["method"] or given["method"] == GB and got["method"] == "grid-box-average")
    S.check("options of the interpolation", got.get("option") == given.get("option"))


@harness(timeout=150)
def existing(S):
    """any existing inventory: another version is refused and left alone, entries are kept"""
    d = S.scratch()
    kind = S.choice("index", "present", "other version", "no version")
    index_file = d + "/out/index.json"
    kw = {}
    if S.choice("elsewhere", False, True):
        index_file = kw["index_file"] = d + "/elsewhere.json"
    S.mkdir(d + "/out")
    inv = S.inventory("inventory", lambda k: (S.plain("name"), S.pure("record", k) if S.symbolic else S.int("record")))
    doc = {"matrix": inv}
    if kind != "no version":
        doc["version"] = 1 if kind == "present" else S.choice("other version", 2, None, "1")
    S.write(index_file, S.json_text(doc))
    before = S.content(index_file)
    refused = False
    try:
        t, doc, name, r = make(S, d, clone(RING), clone(RING), clone(PLAIN), 1, **kw)
    except ValueError:
        refused = True
    S.check("an index of another version is refused", refused == (kind != "present"))
    if refused:
        S.check("a refused index is left as it is", S.content(index_file) == before)
        return
    n = S.plain("any name")
    if n != name:
        S.check("existing entries are kept, and nothing else is added", doc["matrix"].get(n, 0) == inv.get(n, 0))


@harness(timeout=150, split={"differ in": 4, "amethod": 5})
def names(S):
    """different records have different names, equal ones the same"""
    d = S.scratch()
    made, records = [], []
    differ = S.choice("differ in", "input", "output", "interpolation", "nothing")
    i, o, m = clone(RING), clone(RING), clone(PLAIN)
    for k in ("a", "b"):
        if differ == "input":
            i = {"type": "healpix", "grid": "H" + S.plain("n"), "order": S.choice("order", "ring", "nested")}
        if differ == "output":
            o = {"type": "orca", "unstructuredGridType": S.plain("o"), "unstructuredGridSubtype": S.plain("t")}
        if differ == "interpolation":
            m = an_interpolation(S, k, k == "b")[0]
        if k == "b" and S.choice("keys", "in order", "in another order") == "in another order":
            i, o, m = turned(i), turned(o), turned(m)
        records.append({"i": clone(i), "o": clone(o), "m": clone(m)})
        made.append(make(S, d, clone(i), clone(o), clone(m), 1, d + "/" + k)[2])
    S.check("different records have different names, equal ones the same", (made[0] == made[1]) == (records[0] == records[1]))


@harness(timeout=150, split={"method": 5})
def found(S):
    """what was built first is found by its grids and method, with its weights"""
    d = S.scratch()
    S.patch(memcache, "CONFIG", Settings(None, "off", False))
    S.patch(memcache, "MEMORY_CACHE", memcache.MemoryCache(size_fn=lambda m: 1))
    i, method = an_interpolation(S)
    h = S.choice("H", "H1", "H32", "H1024")
    ie, ig = {"type": "healpix", "grid": h, "order": "ring"}, {"grid": h, "order": "ring"}
    oe, og = {"type": "regular_ll", "bbox": {"north": 90, "west": 0, "south": -90, "east": 350}, "increments": {"west_east": 10, "south_north": S.choice("dy", 10, 20)}, "ni": 36, "nj": 19}, None
    og = {"grid": [10, oe["increments"]["south_north"]]}
    S.write(d + "/entry.json", S.json_text({"input": ie, "output": oe, "interpolation": i, "matrix": {"cache_file": "/mir/x", "nnz": 1}}))
    t = Tools(S)
    t.install()
    out = d + "/out"
    builder.make_matrix(d + "/entry.json", out, global_output=S.choice("global output", None, True))
    S.assume(method != "nn" and method != "nearest-neighbor")
    w, shape = MatrixDb.from_path(out).find(ig, og, method)
    S.check("found, with its weights", S.same(w, t.w))
    S.check("with its shape", list(shape) == [19, 36])


@harness(timeout=150)
def size(S):
    """matrix_memory_size is the size of the three arrays of a sparse matrix"""
    w = Weights(S)
    S.check("data, indices and pointers", matrix.matrix_memory_size(w) == w.size())


def real_entry(S, d, n):
    """a matrix file as MIR leaves it, with its description -> (weights, grids, method, path of the description)"""
    import numpy as np
    from scipy.sparse import csr_array
    from specs.c21 import encode
    k = S.choice("kind", "ll", "gg", "healpix", "orca")
    if k == "ll":
        dx = S.choice("dx", 5, 10, 20)
        box = S.choice("box", (90, 0, -90, 360 - dx), (70, 0, 40, 20))
        ni, nj = (box[3] - box[1]) // dx + 1, (box[0] - box[2]) // dx + 1
        ie = {"type": "regular_ll", "increments": {"west_east": dx, "south_north": dx}, "ni": ni, "nj": nj,
              "bbox": {"north": box[0], "west": box[1], "south": box[2], "east": box[3]}}
        ig = {"grid": [dx, dx], "area": list(box)} if box[0] != 90 else {"grid": [dx, dx]}
        cols = ni * nj
    elif k == "gg":
        N, o = S.choice("N", 8, 16), S.choice("octahedral", True, False)
        pl = [20, 24, 28, 28, 24, 20] if o else [20, 27, 36, 36, 27, 20]
        ie = {"type": "reduced_gg", "pl": pl, "N": N, "bbox": {"north": 85, "west": 0, "south": -85, "east": 340}}
        ig = {"grid": ("O" if o else "N") + str(N)}
        cols = sum(pl)
    elif k == "healpix":
        ig = {"grid": S.choice("H", "H2", "H4"), "order": S.choice("order", "ring", "nested")}
        ie = dict(ig, type="healpix")
        cols = 12 * int(ig["grid"][1:]) ** 2
    else:
        t = S.choice("T", "T", "U")
        ie = {"type": "orca", "unstructuredGridType": "eORCA025", "unstructuredGridSubtype": t}
        ig = {"grid": "eORCA025_" + t}
        cols = 40
    oe = {"type": "regular_ll", "increments": {"west_east": 30, "south_north": 45}, "ni": 12, "nj": 5, "bbox": {"north": 90, "west": 0, "south": -90, "east": 330}}
    i, method = an_interpolation(S)
    r = np.random.default_rng(S.int("seed", 0, 10**6))
    w = csr_array(np.where(r.random((60, cols)) < 0.05, r.random((60, cols)), 0.0))
    if S.int("zero weights", 0, 1):
        w.data[r.random(w.nnz) < 0.3] = 0
    p = os.path.join(d, "m%d" % n)
    with open(p + ".mat", "wb") as f:
        f.write(encode(w, S.choice("little", True, False), 8))
    with open(p + ".json", "w") as f:
        json.dump({"input": ie, "output": oe, "interpolation": i, "matrix": {"cache_file": p + ".mat", "nnz": int(w.nnz)}}, f)
    return w, ig, i, method, p + ".json"


@harness(symbolic=False, samples=60)
def real(S):
    """run time: several real matrices built into one inventory, read back from it"""
    d = S.scratch()
    out = os.path.join(d, "out")
    S.patch(memcache, "CONFIG", Settings(None, "off", False))
    S.patch(memcache, "MEMORY_CACHE", memcache.MemoryCache(size_fn=lambda m: 1))
    built, before, descriptions = [], {}, []
    for n in range(S.int("matrices", 1, 4)):
        w, ig, i, method, path = real_entry(S, d, n)
        with open(path) as f:
            described = json.load(f)
        del described["matrix"]
        builder.make_matrix(path, out, global_input=None if "area" in ig else True, global_output=True)
        with open(os.path.join(out, "index.json")) as f:
            now = json.load(f)["matrix"]
        S.check("entries are kept, in order", list(now.items())[:len(before)] == list(before.items()) or len(now) == len(before))
        new = [k for k in now if k not in before]
        again = described in descriptions
        S.check("one new entry, or that of the same description", len(new) == (0 if again else 1))
        descriptions.append(described)
        for k in before:
            S.check("other entries are unchanged", now[k] == before[k] or not new)
        before = now
        if again:
            built = [(w, b[1], b[2], described) if b[3] == described else b for b in built]
            continue
        r = now[new[0]]
        from scipy.sparse import load_npz
        z = load_npz(os.path.join(out, r["interpolation"]["engine"] + "_" + str(r["interpolation"]["version"]) + "_"
                                  + method, new[0] + ".npz"))
        S.check("its size", r["memory"] == z.data.nbytes + z.indices.nbytes + z.indptr.nbytes)
        if not any(b[1] == ig and b[2] == method for b in built):
            built.append((w, ig, method, described))
    db = MatrixDb.from_path(out)
    for w, ig, method, described in built:
        got, shape = db.find(ig, {"grid": [30, 45]}, method)
        if method in ("nn", "nearest-neighbor"):
            continue
        S.check("found with its weights", got is not None and got.shape == w.shape and (got.toarray() == w.toarray()).all())
        S.check("found with its shape", list(shape) == [5, 12])
