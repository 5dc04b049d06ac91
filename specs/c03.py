"""C03 Grid equality identifies only equivalent grids."""
from pyvc.harness import harness
from earthkit.regrid.gridspec import GridSpec, LLGridSpec, ReducedGGGridSpec
from specs.grids import grids_equal, boundary, ew_regular, ew_reduced, norm360

PROPERTY = "C03"
AREAS = [[90.0, 0.0, -90.0, 360.0], [90.0, 0.0, -90.0, 359.0], [90.0, 0.0, -90.0, 355.0], [90.0, -180.0, -90.0, 175.0],
         [90.0, 180.0, -90.0, 535.0], [90.0, 360.0, -90.0, 715.0], [90.0, -180.0, -90.0, 180.0], [80.0, 0.0, -80.0, 355.0],
         [50.0, 10.0, 20.0, 40.0], [50.0, 370.0, 20.0, 400.0], [90.0, 0.0, -90.0, 180.0], [90.0, 0.25, -90.0, 355.25],
         [90.0, 0.05, -90.0, 359.95]]
NUDGE = [0, 0, 0, 0, 0, 5e-9, -5e-9, 2e-8, 0.05, -0.05, 0.25, 360, -360]


def pick_area(r):
    a = list(r.choice(AREAS))
    if r.random() < 0.4:
        i = r.randrange(4)
        a[i] += r.choice(NUDGE)
    return a


def area(S, name):
    if S.symbolic:
        return [S.real(name + ".n"), S.real(name + ".w"), S.real(name + ".s"), S.real(name + ".e")]
    a = pick_area(S.rng)
    return [S.real(name + "." + k, gen=lambda r: a[i]) for i, k in enumerate("nwse")]


def flags(S, d, name, defaulted):
    if defaulted:
        return
    for f in ("i_scans_negatively", "j_points_consecutive", "j_scans_positively"):
        d[f] = S.int(name + "." + f, 0, 1, gen=lambda r: r.choice([0, 0, 0, 0, 1]))


def shape(S, d, name, kind):
    if kind == "absent":
        return
    n = S.int(name + ".ny", 1, 10**9, gen=lambda r: r.choice([181, 361]))
    m = S.int(name + ".nx", 1, 10**9, gen=lambda r: r.choice([360, 720]))
    d["shape"] = (n, m) if kind == "tuple" else [n, m]


def global_ew_regular_contract(S, self):
    return ew_regular(S, self)


def global_ew_reduced_contract(S, self):
    return ew_reduced(S, self)


def normalise_contract(S, lon, minimum):
    return minimum + (lon - minimum) % 360


def contracts(S):
    S.use_contract(GridSpec.normalise_lon, normalise_contract)
    S.use_contract(LLGridSpec.is_global_ew, global_ew_regular_contract)
    S.use_contract(ReducedGGGridSpec.is_global_ew, global_ew_reduced_contract)


def compare(S, d1, d2, orders=("a == b",)):
    a, b = GridSpec.from_dict(d1), GridSpec.from_dict(d2)
    if boundary(S, a, b):
        return
    # both operands range over all grids and the specification is symmetric in them (lemma spec_symmetric)
    how = S.choice("evaluation", *orders)
    want = grids_equal(S, a, b)
    if how == "a == b":
        S.check("equal exactly as specified", bool(a == b) == want)
    elif how == "b == a":
        S.check("comparison is symmetric", bool(b == a) == want)
    else:
        bool(a == b)
        S.check("comparison does not depend on earlier comparisons", bool(a == b) == want)


@harness(timeout=150)
def spec_symmetric(S):
    """lemma: the specified equality is symmetric"""
    a = {"grid": [S.real("a.dx", gen=inc), S.real("a.dy", gen=inc)], "area": area(S, "a"), "type": "regular_ll", "global": S.choice("a.g", 0, 1)}
    b = {"grid": [S.real("b.dx", gen=inc), S.real("b.dy", gen=inc)], "area": area(S, "b"), "type": "regular_ll", "global": S.choice("b.g", 0, 1)}
    for x, n in ((a, "a"), (b, "b")):
        flags(S, x, n, False)
    S.check("lemma: specified equality of regular grids is symmetric", grids_equal(S, a, b) == grids_equal(S, b, a))
    for x in (a, b):
        x["type"] = "reduced_gg"
    a["grid"] = "O" + str(S.int("a.n", 1, 1000000, gen=num))
    b["grid"] = S.choice("letter", "o", "n") + str(S.int("b.n", 1, 1000000, gen=num))
    S.check("lemma: specified equality of reduced grids is symmetric", grids_equal(S, a, b) == grids_equal(S, b, a))


def regular(S, name, with_area, glob):
    d = {"grid": [S.real(name + ".dx", gen=inc), S.real(name + ".dy", gen=inc)]}
    if with_area:
        d["area"] = area(S, name)
    if glob is not None:
        d["global"] = glob
    return d


def inc(r):
    return r.choice([1.0, 5.0, 1.0, 5.0, 0.25, 10.0]) + r.choice([0, 0, 0, 5e-7, 2e-6, 2e-5, -5e-7])


@harness(timeout=150, split={"a.global": 3})
def regular_areas(S):
    """two regular grids with explicit areas, default flags"""
    contracts(S)
    d1 = regular(S, "a", True, S.choice("a.global", None, 0, 1))
    d2 = regular(S, "b", True, S.choice("b.global", None, 0, 1))
    compare(S, d1, d2)


@harness(timeout=150, split={"b.global": 2})
def regular_default_areas(S):
    """no area on either side: the default area depends on the increments"""
    contracts(S)
    compare(S, regular(S, "a", False, None), regular(S, "b", False, S.choice("b.global", None, 1)))


@harness(timeout=150, split={"a.area": 2})
def regular_flags_shapes(S):
    contracts(S)
    d1 = regular(S, "a", False, None)
    d2 = regular(S, "b", False, None)
    d1["area"] = S.choice("a.area", [90, 0, -90, 359], [50, 10, 20, 40])
    d2["area"] = S.choice("b.area", [90, 0, -90, 359], [90, 360, -90, 719])
    flags(S, d1, "a", S.choice("a.flags", True, False))
    flags(S, d2, "b", S.choice("b.flags", True, False))
    shape(S, d1, "a", S.choice("a.shape", "absent", "list", "tuple"))
    shape(S, d2, "b", S.choice("b.shape", "absent", "list", "tuple"))
    compare(S, d1, d2)


@harness(timeout=150, split={"a.global": 3})
def regular_mixed(S):
    """one area given, the other defaulted"""
    contracts(S)
    d1 = regular(S, "a", True, S.choice("a.global", None, 0, 1))
    d2 = {"grid": S.choice("grid", [1, 1], [5, 5], [0.7, 0.7], (10, 10), [7, 7])}
    compare(S, d1, d2, ("a == b", "b == a", "again"))


def num(r):
    return r.choice([32, 32, 64, 320])


def reduced(S, name, with_area, glob):
    letter = S.choice(name + ".letter", "O", "o", "N", "n")
    d = {"grid": letter + str(S.int(name + ".n", 1, 1000000, gen=num))}
    if with_area:
        d["area"] = area(S, name)
    if glob is not None:
        d["global"] = glob
    return d


@harness(timeout=90, split={"a.letter": 4})
def reduced_areas(S):
    contracts(S)
    d1 = reduced(S, "a", True, S.choice("a.global", None, 1))
    d2 = reduced(S, "b", S.choice("b.area", True, False), None)
    compare(S, d1, d2)


@harness(symbolic=False)
def regular_run_time(S):
    """all evaluation orders on concrete values (run-time contract)"""
    d1 = regular(S, "a", S.choice("a.area", True, False), S.choice("a.global", None, 1))
    d2 = regular(S, "b", S.choice("b.area", True, False), S.choice("b.global", None, 0))
    compare(S, d1, d2, ("a == b", "b == a", "again"))


@harness(symbolic=False, samples=400)
def wests(S):
    """run time: grids around the globe, from any west, of related resolutions"""
    ds = []
    base = S.choice("base", 0.0, 0.0, 30.0, 180.0, 359.95)
    n = S.choice("n", 32, 64)
    reg = S.choice("type", "regular", "reduced") == "regular"
    for name in "ab":
        if reg:
            dx = S.choice("dx", 5.0, 5.0, 1.0)
            d = {"grid": [dx, dx]}
        else:
            d = {"grid": S.choice("letter", "O", "o", "O", "N") + str(n)}
            dx = 360 / (4 * n + 16) if d["grid"][0] in "oO" else 360 / (4 * n)
        w = base + S.choice("turns", 0, 0, -360, 360, -720) + S.choice("nudge", 0, 0, 0, 5e-9, 0.05, 0.5, -0.5)
        north = S.choice("north", 90.0, 90.0, 90.0, 80.0)
        d["area"] = [north, w, -north, w + S.choice("extent", 360 - dx, 360 - dx, 360.0, 360 - 2 * dx)]
        if S.int("global given", 0, 4) == 0:
            d["global"] = S.int("global", 0, 1)
        ds.append(d)
    compare(S, ds[0], ds[1], ("a == b", "b == a", "again"))


@harness(timeout=150)
def reduced_flags_shapes(S):
    contracts(S)
    d1 = {"grid": "O" + str(S.int("a.n", 1, 1000000, gen=num))}
    d2 = {"grid": S.choice("letter", "o", "n") + str(S.int("b.n", 1, 1000000, gen=num))}
    flags(S, d1, "a", False)
    flags(S, d2, "b", S.choice("b.flags", True, False))
    shape(S, d1, "a", S.choice("a.shape", "absent", "list"))
    shape(S, d2, "b", S.choice("b.shape", "absent", "tuple"))
    compare(S, d1, d2, ("a == b", "b == a", "again"))


@harness(timeout=150, split={"a.orderkey": 3})
def healpix(S):
    d1 = {"grid": "H" + str(S.int("a.n", 1, 1000000, gen=num))}
    d2 = {"grid": S.choice("b.letter", "H", "h") + str(S.int("b.n", 1, 1000000, gen=num))}
    for n, d in (("a", d1), ("b", d2)):
        k = S.choice(n + ".orderkey", None, "order", "ordering")
        if k is not None:
            d[k] = S.choice(n + ".order", "ring", "nested")
    flags(S, d1, "a", False)
    compare(S, d1, d2, ("a == b", "b == a", "again"))


ORCA = ["eORCA025_T", "eORCA025_U", "eORCA1_T", "ORCA2_F", "EORCA025_t"]


@harness(timeout=150)
def orca(S):
    d1 = {"type": "orca", "grid": S.str("a", gen=lambda r: r.choice(ORCA))}
    d2 = {"type": "orca", "grid": S.str("b", gen=lambda r: r.choice(ORCA))}
    flags(S, d1, "a", False)
    flags(S, d2, "b", False)
    shape(S, d1, "a", S.choice("a.shape", "absent", "list"))
    shape(S, d2, "b", S.choice("b.shape", "absent", "list"))
    compare(S, d1, d2, ("a == b", "b == a", "again"))


@harness(timeout=150)
def different_types(S):
    contracts(S)
    ds = [{"grid": [1, 1]}, {"grid": "O" + str(S.int("n", 1, 1000000, gen=num))}, {"grid": "H" + str(S.int("h", 1, 1000000, gen=num))},
          {"grid": "eORCA025_T"}]
    i = S.choice("i", 0, 1, 2, 3)
    j = S.choice("j", 0, 1, 2, 3)
    a, b = GridSpec.from_dict(ds[i]), GridSpec.from_dict(ds[j])
    S.check("different types are never equal", (a == b) == (i == j))
