"""C23 Loading an inventory keeps every supported entry and tolerates the rest."""
import json
import os
import tempfile

from pyvc.harness import harness
from earthkit.regrid.backends.db import MatrixDb, MatrixIndex
from earthkit.regrid.gridspec import GridSpec

PROPERTY = "C23"
LEVEL_NOTE = "inventories of any size and any content of the entries; which grids are supported is C04's contract (a function of the grid record that gives a grid or raises)"
ASSUMPTIONS = ["the json module loads what was dumped", "names in an index are distinct (it is a dictionary)"]


class Spec:
    """the grid a record means"""

    def __init__(self, record):
        self.record = record


def record(S, name):
    """what an index has under this name (names are distinct, so this is any content)"""
    r = {}
    if S.pure_bool("has input", name):
        r["input"] = {"grid": S.pure_text("input grid", name), "shape": S.pure("input shape", name) if S.symbolic else [1, 2]}
    r["interpolation"] = {"engine": S.pure_text("engine", name), "version": S.pure_text("version", name), "method": S.pure_text("method", name)}
    if S.pure_bool("has output", name):
        r["output"] = {"grid": S.pure_text("output grid", name)}
    if S.pure_bool("has memory", name):
        r["memory"] = S.pure_int("memory", name)
    return r


def supported(S, grid):
    return S.pure_bool("supported", grid)


def from_dict(S):
    def f(d):
        if not supported(S, d["grid"]):
            if S.pure_bool("unknown type", d["grid"]):
                raise TypeError("unsupported")
            raise ValueError("unsupported")
        return Spec(d)
    return f


def usable(S, r):
    if "input" not in r or "output" not in r:
        return False
    return S.all_of(supported(S, r["input"]["grid"]), supported(S, r["output"]["grid"]))


def simple(S, name):
    return {"input": {"grid": S.pure_text("input grid", name)}, "output": {"grid": "out"}, "memory": S.pure_int("memory", name)}


def loaded(S, label, inv, idx, make):
    def keep(name, r):
        return usable(S, make(S, name))

    def value(name, r, new):
        r = make(S, name)
        ok = new["_name"] == name and new["_raw"] == r
        ok = ok and isinstance(new["input"], Spec) and new["input"].record == r["input"]
        ok = ok and isinstance(new["output"], Spec) and new["output"].record == r["output"]
        for k in ("interpolation", "memory"):
            ok = ok and (k in new) == (k in r)
            if k in r:
                ok = ok and new[k] == r[k]
        return ok and len(new) == len(r) + 2
    S.filtered(label, inv, idx, keep, value)


VERSIONS = (2, 0, "1", None, "none", 1)


@harness(timeout=150)
def load(S):
    """MatrixIndex.load of any index"""
    S.patch(GridSpec, "from_dict", from_dict(S))
    path = S.scratch() + "/index.json"
    inv = S.inventory("index", lambda k: inventory_entry(S, record))
    v = S.choice("version", *VERSIONS)
    if v == "any":
        v = S.text("other version")
    doc = {"matrix": inv}
    if v != "none":
        doc["version"] = v
    S.write(path, S.json_text(doc))
    idx = MatrixIndex()
    refused = False
    try:
        idx.load(path)
    except ValueError:
        refused = True
    S.check("another version is refused", refused == (v != 1 or isinstance(v, str)))
    if refused:
        S.check("nothing is loaded from another version", len(idx) == 0)
    else:
        loaded(S, "exactly the supported entries", inv, idx, record)


def inventory_entry(S, make):
    name = S.plain("name")
    return name, make(S, name)


class Place:
    """a place of an inventory"""

    def __init__(self, path):
        self._path = path

    def index_path(self):
        return self._path

    def path(self):
        return self._path

    def is_local(self):
        return True

    def checked_remote(self):
        return False


@harness(timeout=150)
def database(S):
    """the index of an inventory: refused every time while it is no index of this version, complete once it is"""
    S.patch(GridSpec, "from_dict", from_dict(S))
    path = S.scratch() + "/index.json"
    bad = S.choice("first", "absent", "malformed", "version", "no entries", "good")
    if bad == "malformed":
        S.write(path, S.bad_json("text"))
    elif bad == "version":
        S.write(path, S.json_text({"version": 2, "matrix": {}}))
    elif bad == "no entries":
        S.write(path, S.json_text({"version": 1}))
    db = MatrixDb(Place(path))
    if bad != "good":
        for i in range(2):
            refused = False
            try:
                db.index
            except Exception as e:
                refused = bad != "version" or isinstance(e, ValueError)
            S.check("refused every time", refused)
    inv = S.inventory("index", lambda k: inventory_entry(S, simple))
    S.write(path, S.json_text({"version": 1, "matrix": inv}))
    idx = db.index
    loaded(S, "exactly the supported entries", inv, idx, simple)
    S.remove(path)
    S.check("read once", db.index is idx)


@harness(timeout=150)
def export(S):
    """MatrixIndex.to_raw of any loaded index"""

    def entry(k):
        name = S.plain("name")
        r = S.opaque("record")
        return name, {"_name": name, "_raw": r, "input": 1, "output": 2}
    inv = S.inventory("index", entry)
    idx = MatrixIndex()
    S.fill(idx, inv)
    out = idx.to_raw()
    S.check("a document with version and entries", isinstance(out, dict) and len(out) == 2 and out["version"] == 1)
    S.filtered("the raw records of all entries", idx, out["matrix"], lambda name, e: True, lambda name, e, new: S.same(new, e["_raw"]))


@harness(timeout=150)
def subset(S):
    """MatrixIndex.subset with any list of filters; the entry a filter means is C02's contract"""
    asked = []

    def item(k):
        f = {"input": S.opaque("in"), "output": S.opaque("out")}
        if S.choice("has method", True, False):
            f["method"] = S.text("method")
        return f

    def key(f):
        return (f["input"], f["output"], f.get("method", "linear"))

    def found(i, o, m):
        if not S.pure_bool("found", i, o, m):
            return None
        n = S.pure_text("entry", i, o, m)
        return {"_name": n, "_raw": S.pure("raw", n) if S.symbolic else "raw " + n, "x": S.pure_int("x", n)}
    S.patch(MatrixIndex, "find", lambda self, i, o, m: found(i, o, m))
    filters = S.sequence("filters", item)
    raw = S.choice("raw", "default", False, True)
    strict = S.choice("fail on missing", "default", True, False)
    kw = {}
    if raw != "default":
        kw["raw"] = raw
    if strict != "default":
        kw["fail_on_missing"] = strict
    idx = MatrixIndex()
    r = None
    try:
        r = idx.subset(filters, **kw)
    except ValueError:
        pass

    def want(f):
        e = found(*key(f))
        if e is None:
            return None

        def same(new):
            if raw is True:
                return new == e["_raw"]
            return new["_name"] == e["_name"] and new["_raw"] == e["_raw"] and new["x"] == e["x"]
        return e["_name"], same
    if r is None:
        S.check("refused only when asked to", strict is not False)
        S.some("refused only when an entry is missing", filters, lambda f: found(*key(f)) is None)
    else:
        S.check("a subset is an index", isinstance(r, MatrixIndex))
        S.collected("exactly the entries the filters select", filters, r, want)
        if strict is not False:
            S.each("refused when an entry is missing", filters, lambda f: found(*key(f)) is not None)


GOOD = ({"grid": [10, 10]}, {"grid": "O32"}, {"grid": "H4", "order": "nested", "shape": [192]}, {"grid": [30, 30], "area": [90, 0, -90, 360], "shape": [7, 12]}, {"grid": "eORCA025_T", "type": "orca"})
BAD = ({"grid": "X12"}, {"type": "new", "grid": "O32"}, {}, {"grid": [1, 2, 3]}, {"grid": None}, {"grid": {"a": 1}}, "O32", None, 5)


@harness(symbolic=False, samples=200, search_s=5)
def real(S):
    """run time: real index files with supported and unsupported grids"""
    matrix = {}
    want = []
    for k in range(S.int("entries", 0, 7)):
        n = f"m{S.int('name', 0, 99)}_{k}"
        m = S.choice("method", "linear", "nn", {"type": "linear", "a": [1, 2.5]})
        e = {"interpolation": {"engine": "mir", "version": "1", "method": m}, "input": S.choice("in", *GOOD), "output": S.choice("out", *GOOD), "memory": k, "extra": {"k": [k, None]}}
        ok = True
        w = S.int("kind", 0, 9)
        if w == 0:
            e["input"] = S.choice("bad", *BAD)
            ok = False
        elif w == 1:
            e["output"] = S.choice("bad", *BAD)
            ok = False
        elif w == 2:
            del e["input" if S.int("which", 0, 1) else "output"]
            ok = False
        elif w == 3:
            e = S.choice("not a record", 5, None, "text", [1])
            ok = False
        matrix[n] = e
        if ok and not (isinstance(e.get("input"), dict) and is_odd(e["input"])) and not is_odd(e["output"]):
            want.append(n)
    text = json.dumps({"version": 1, "matrix": matrix, "other": [1]})
    with tempfile.TemporaryDirectory() as top:
        with open(os.path.join(top, "index.json"), "w") as f:
            f.write(text)
        db = MatrixDb.from_path(top)
        idx = db.index
        S.check("exactly the supported entries, in order", list(idx) == want)
        matrix = json.loads(text)["matrix"]
        for n in want:
            e, r = idx[n], matrix[n]
            S.check("under their names", e["_name"] == n)
            S.check("the raw record", e["_raw"] == r)
            S.check("other attributes", all(e[k] == r[k] for k in ("interpolation", "memory", "extra")))
            S.check("the grids", e["input"] == GridSpec.from_dict(r["input"]) and e["output"] == GridSpec.from_dict(r["output"]))
        for n in want:
            dict(idx[n])
            idx.find(idx[n]["input"], idx[n]["output"], "linear")
        S.check("exported", idx.to_raw() == {"version": 1, "matrix": {n: matrix[n] for n in want}} and list(idx.to_raw()["matrix"]) == want)
        if want:
            n = S.choice("filter", *want)
            m = MatrixIndex.interpolation_method_name(matrix[n])
            fs = [{"input": matrix[n]["input"], "output": matrix[n]["output"], "method": m}]
            if m == "linear" and S.int("default", 0, 1):
                del fs[0]["method"]
            first = next(k for k in want if idx[k]["input"] == idx[n]["input"] and idx[k]["output"] == idx[n]["output"] and MatrixIndex.interpolation_method_name(matrix[k]) == m)
            S.check("the subset the filters select", dict(db.subset_index(fs)) == {first: idx[first]})
            S.check("raw", dict(db.subset_index(fs * 2, raw=True)) == {first: matrix[first]})
            fs.append({"input": {"grid": [77, 77]}, "output": {"grid": [78, 78]}})
            try:
                db.subset_index(fs)
                S.check("a missing entry is refused", False)
            except ValueError:
                pass
            S.check("or left out", list(db.subset_index(fs, fail_on_missing=False)) == [first])


def is_odd(g):
    """records of BAD that are no grids"""
    return any(g is b or g == b for b in BAD)
