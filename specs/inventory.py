"""Shared by C01, C02, C22-C24: inventory entries, grids as abstract values."""
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends.db import MatrixDb, MatrixIndex
from earthkit.regrid.gridspec import GridSpec

ALIAS = {"nn": "nearest-neighbour", "nearest-neighbor": "nearest-neighbour"}


class Grid:
    """a grid specification: only equality with others is known (C03: an equivalence test without side effects)"""

    def __init__(self, S, tag):
        self.S, self.tag = S, tag

    def __eq__(self, other):
        return grids_equal(self.S, self, other)

    def __ne__(self, other):
        return not grids_equal(self.S, self, other)


def grids_equal(S, a, b):
    if a is b:
        return True
    return S.either(S.pure_bool("equal", a.tag, b.tag), S.pure_bool("equal", b.tag, a.tag))


def abstract_grids(S):
    """GridSpec.from_dict gives the grid a specification means; specifications are grids here"""
    S.patch(GridSpec, "from_dict", lambda d: d)


def method_field(S, name="method"):
    """-> (the method as recorded in an entry, its name)"""
    m = S.plain(name, gen=lambda r: r.choice(["linear", "nearest-neighbour", "nn", "k_nearest", "nearest-neighbor", "NN", "Linear", "nearest-neighbour"]))
    if S.choice(name + " kind", "text", "record") == "text":
        return m, m
    return {"type": m, "solver": {"type": S.plain("solver")}}, m


def entry(S, k, name):
    """any entry of a loaded inventory"""
    method, method_name = method_field(S)
    e = {"input": Grid(S, S.opaque("input")), "output": Grid(S, S.opaque("output")), "_name": name,
         "interpolation": {"engine": S.plain("engine"), "version": S.plain("version"), "method": method}}
    return name, e


def index_of(S, inventory):
    i = MatrixIndex()
    S.fill(i, inventory)
    return i


def entry_method(e):
    m = e["interpolation"]["method"]
    return m if isinstance(m, str) else m["type"]


def meant(method):
    """the method that a request's method means"""
    if method == "nn":
        return "nearest-neighbour"
    if method == "nearest-neighbor":
        return "nearest-neighbour"
    return method


class Accessor:
    """a place where an inventory is; records what is asked of it"""

    def __init__(self, S, local=True, checked=False):
        self.S, self.local, self.checked = S, local, checked
        self.reloads = 0
        self.indexes = 0
        self.paths = []

    def path(self):
        return "/inventory"

    def is_local(self):
        return self.local

    def checked_remote(self):
        return self.checked

    def index_path(self):
        self.indexes += 1
        return "/inventory/index.json"

    def matrix_path(self, name):
        self.paths.append(name)
        return self.S.pure_text("file", name)

    def reload(self, *args, **kwargs):
        self.reloads += 1

    def reset(self):
        pass
