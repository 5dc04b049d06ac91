"""C07 The in-memory cache never changes a result."""
import os
import tempfile

from pyvc import memstate
from pyvc.harness import harness
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends.db import MatrixDb
from earthkit.regrid.utils import memcache
from specs.memcache import LoadError, MAX, Mat, Op, POLICIES, Settings, make_cache, settings, start

PROPERTY = "C07"
LEVEL_NOTE = ("transparency = frame contract of one lookup from any cache state (entries keep their data, only the loaded data of the request "
              "is added) + lemma over two lookups in two inventories (equal keys imply equal requests), composed by induction over histories")


@harness(timeout=150, setup=memstate.setup, split={"held": 4, "a.outcome": 4})
def one_lookup(S):
    """from any state: the result is the request's own or a remembered one; what is remembered stays and is right"""
    c = make_cache(S, start(S), False, S.choice("held", *POLICIES))
    before = S.snapshot(c)
    op = Op(S, "a")
    r = op.run(c)
    after = S.snapshot(c)
    hit = op.finds == 0
    if not hit:
        if op.outcome == "found":
            S.check("the result is what was loaded", r is ValueError or S.same(r, (op.mat, op.shape)))
        elif op.outcome == "missing":
            S.check("nothing is found when there is nothing", S.same(r, (None, None)))
        else:
            S.check("a failure reaches the caller", r is LoadError or r is ValueError)
    else:
        S.check("a hit loads nothing", op.loads == 0)
        S.check("a hit returns a matrix", r is not ValueError and r is not LoadError and r[0] is not None)
        S.check("a hit changes no content", len(after) == len(before))
    S.forall_items("remembered results are kept as they are or are what was just loaded", after,
                   lambda k, v: S.either(S.all_of(k in before, S.same_item(before, k, v)), S.all_of(not hit, op.loads == 1, S.same(v.data, (op.mat, op.shape)))))
    if not hit and op.loads == 0:
        S.forall_items("a failed lookup is never remembered", after, lambda k, v: k in before)


@harness(timeout=150, setup=memstate.setup)
def repeated(S):
    """the second lookup of a key gives what the first gave"""
    c = make_cache(S, start(S), False, S.choice("held", "off", "unlimited") if S.symbolic else None)
    a, b = Op(S, "a"), Op(S, "b")
    b.key = a.key
    first = a.run(c)
    between = Op(S, "x", fails=False)
    S.assume(between.key != a.key)
    between.run(c)
    second = b.run(c)
    if b.finds == 0:
        S.check("a hit gives what was found before", not S.either(first is LoadError, first is ValueError))
        S.check("a hit gives the matrix of the same request", S.same(first, second))
    elif b.outcome == "found":
        S.check("otherwise the result is loaded afresh", second is ValueError or S.same(second, (b.mat, b.shape)))


GRIDS = ({"grid": [1, 1]}, {"grid": [1, 1], "area": [90, 0, 0, 359]})


@harness(timeout=150, setup=memstate.setup, native=False, split={"sources": 4})
def inventories(S):
    """lookups of any two requests in any two inventories: each gives its own inventory's answer"""
    st = Settings(None, S.choice("policy", "unlimited", "off"), False)
    S.patch(memcache, "CONFIG", st)
    c = memcache.MemoryCache(size_fn=lambda m: 1)
    S.patch(memcache, "MEMORY_CACHE", c)
    loads = []

    def find_entry(self, gs_in, gs_out, method):
        if not S.pure_bool("found", self.matrix_source(), dict(gs_in), dict(gs_out), method):
            return None
        return {"output": {"shape": S.pure("shape", self.matrix_source(), dict(gs_in), dict(gs_out), method)}, "request": (dict(gs_in), dict(gs_out), method)}

    def load_matrix(self, entry):
        loads.append(1)
        m = S.pure("matrix", self.matrix_source(), entry["request"])
        S.suppose(m is not None)
        return m
    S.patch(MatrixDb, "find_entry", find_entry)
    S.patch(MatrixDb, "load_matrix", load_matrix)
    kind = S.choice("sources", "any paths", "two directories of one name", "two hosts", "names alike")
    if kind == "any paths":
        dbs = [MatrixDb.from_path(S.text("path1")), MatrixDb.from_path(S.text("path2"))]
    elif kind == "two directories of one name":
        dbs = [MatrixDb.from_path("/one/db"), MatrixDb.from_path("/two/db")]
    elif kind == "names alike":
        dbs = [MatrixDb.from_path("/one/db"), MatrixDb.from_path("/One/DB")]
    else:
        dbs = [MatrixDb.from_url("https://one.int/db"), MatrixDb.from_url("https://two.int/db")]
    for i in range(2):
        db = dbs[i]
        gi, go = dict(S.choice("in", *GRIDS)), dict(GRIDS[1])
        method = S.text("method")
        gs_in, gs_out = db_module.GridSpec.from_dict(gi), db_module.GridSpec.from_dict(go)
        e = db.find_entry(gs_in, gs_out, method)
        n = len(loads)
        got = db.find(gi, go, method)
        if e is None:
            S.check("nothing found in this inventory", S.same(got, (None, None)))
        else:
            S.check("the matrix of this inventory and request", S.same(got[0], S.pure("matrix", db.matrix_source(), e["request"])))
            S.check("the shape of this inventory's entry", S.same(got[1], e["output"]["shape"]))
        S.check("at most one load", len(loads) <= n + 1)


RELATED = ({"grid": [1, 2]}, {"grid": [2, 1]}, {"grid": (1, 2)}, {"grid": [1, 2], "shape": [3, 4]}, {"grid": [1, 2], "shape": [4, 3]}, {"grid": "O32"}, {"grid": "N32"}, {"grid": "o32"},
           {"grid": [1, 2], "j_scans_positively": 1}, {"grid": [1, 2], "i_scans_negatively": 1}, {"grid": [1, 2], "area": [90, 0, -90, 359]}, {"grid": [1, 2], "area": [0, 90, 359, -90]},
           {"grid": [1.0, 2]}, {"grid": [1, 2], "global": 1}, {"grid": "H32"}, {"grid": "H32", "order": "nested"}, {"grid": "H32", "order": "ring"}, {"grid": "eORCA1_T"}, {"grid": "eORCA1_U"})
WORDS = ("linear", "Linear", "nn", "nearest-neighbour", "", "linear ")


@harness(symbolic=False, samples=300, search_s=8)
def related(S):
    """run time: histories of requests made of the same few parts, and of their permutations, in two inventories"""
    st = settings(S, "s")
    st.values[MAX] = 10**6 if st.values[MAX] else st.values[MAX]
    S.patch(memcache, "CONFIG", st)
    c = memcache.MemoryCache(size_fn=lambda m: 1)
    S.patch(memcache, "MEMORY_CACHE", c)
    loads = []

    def find_entry(self, gs_in, gs_out, method):
        if method == "":
            return None
        k = (self.matrix_source(), dict(gs_in), dict(gs_out), method)
        return {"output": {"shape": ("shape", k)}, "request": k, "_raw": {"memory": 1}}

    def load_matrix(self, entry):
        loads.append(1)
        return ("matrix", entry["request"])
    S.patch(MatrixDb, "find_entry", find_entry)
    S.patch(MatrixDb, "load_matrix", load_matrix)
    dbs = [MatrixDb.from_path(p) for p in S.choice("paths", ("/a/db", "/b/db"), ("/a/db", "/a/DB"), ("linear", "nn"))]
    grids = [S.choice("grid", *RELATED) for i in range(3)]
    words = [S.choice("word", *WORDS) for i in range(2)]
    for i in range(S.int("lookups", 2, 8)):
        db, gi, go, m = S.choice("db", *dbs), S.choice("in", *grids), S.choice("out", *grids), S.choice("method", *words)
        n = len(loads)
        got = db.find(dict(gi), dict(go), m)
        e = db.find_entry(db_module.GridSpec.from_dict(gi), db_module.GridSpec.from_dict(go), m)
        if e is None:
            S.check("nothing found in this inventory", got == (None, None))
        else:
            S.check("the matrix and shape of this inventory and request", got == (("matrix", e["request"]), e["output"]["shape"]))
        S.check("at most one load", len(loads) <= n + 1)


@harness(symbolic=False, samples=25, search_s=6)
def files(S):
    """run time: two inventories with the same names and different weights, any sequence of lookups"""
    import numpy as np
    from scipy.sparse import csr_array, load_npz, save_npz
    import json
    rng = np.random.default_rng(S.int("seed", 0, 10**6))
    st = settings(S, "s")
    c = make_cache(S, st)
    c.size_fn = lambda m: m.data.nbytes
    S.patch(memcache, "MEMORY_CACHE", c)
    grids = [{"grid": [30, 30], "shape": [7, 12], "type": "regular_ll"}, {"grid": [90, 90], "shape": [3, 4], "type": "regular_ll"}, {"grid": "O2", "type": "reduced_gg", "shape": [5]}]
    methods = ["linear", "nearest-neighbour"]
    with tempfile.TemporaryDirectory() as top:
        dbs = []
        for d in S.choice("directories", ("a", "b"), ("a/db", "b/db"), ("Db", "db")):
            root = os.path.join(top, d)
            index = {"version": 1, "matrix": {}}
            for gi in range(3):
                for go in range(2):
                    for m in methods:
                        if S.int("present", 0, 9) == 0:
                            continue
                        name = f"{gi}{go}{m[0]}"
                        os.makedirs(os.path.join(root, f"mir_1_{m}"), exist_ok=True)
                        w = csr_array(rng.random((int(np.prod(grids[go]["shape"])), int(np.prod(grids[gi]["shape"])))))
                        save_npz(os.path.join(root, f"mir_1_{m}", name + ".npz"), w)
                        index["matrix"][name] = {"input": grids[gi], "output": dict(grids[go], shape=grids[go]["shape"]), "interpolation": {"engine": "mir", "version": "1", "method": m},
                                                 "memory": S.choice("estimate", 0, 8 * w.nnz, 10, 1000)}
            with open(os.path.join(root, "index.json"), "w") as f:
                json.dump(index, f)
            dbs.append((MatrixDb.from_path(root), root, index))
        for i in range(S.int("lookups", 1, 14)):
            k = S.int("db", 0, 1)
            db, root, index = dbs[k]
            gi, go, m = S.int("gi", 0, 2), S.int("go", 0, 1), S.choice("m", *methods)
            name = f"{gi}{go}{m[0]}"
            if S.int("reconf", 0, 4) == 0:
                st.values = settings(S, "new").values
                c.update()
            opened = []
            real = load_npz

            def counting(p, *a, **kw):
                opened.append(p)
                return real(p, *a, **kw)
            S.patch(db_module, "load_npz", counting)
            try:
                got = db.find(dict(grids[gi]), dict(grids[go]), m)
            except ValueError:
                S.check("only strict mode refuses", c.strict)
                continue
            if name not in index["matrix"]:
                S.check("nothing found in this inventory", got == (None, None))
                continue
            want = real(os.path.join(root, f"mir_1_{m}", name + ".npz"))
            S.check("the matrix of this inventory and request", got[0] is not None and got[0].shape == want.shape and (got[0] != want).nnz == 0)
            S.check("the shape of this inventory's entry", list(got[1]) == grids[go]["shape"])
            S.check("at most one load", len(opened) <= 1)
            n = len(opened)
            if c.policy.name != "off" and sum(v.size for v in c.items.values()) and any(v.data is got for v in c.items.values()):
                again = db.find(dict(grids[gi]), dict(grids[go]), m)
                S.check("a hit loads nothing", len(opened) == n and again[0] is got[0])
