"""C04 Grid specifications are canonicalised without touching the caller's dict."""
import re

from pyvc.harness import harness
from earthkit.regrid.gridspec import GridSpec
from specs.grids import FLAGS, is_default_area

PROPERTY = "C04"
NUMBERED = re.compile(r"^[OoNnHh]\d+$")
ORCA = re.compile(r"^e?ORCA\d+_[FTUV]$")


def raises(S, fn, *args):
    try:
        fn(*args)
    except ValueError:
        return True
    return False


@harness
def no_leaks(S):
    """a specification is unaffected by earlier ones"""
    kind = S.choice("kind", [S.real("dx", gen=inc), S.real("dy", gen=inc)], "O" + str(S.int("n", 1, 1000)), "H8", "eORCA025_T")
    d = {"grid": kind, "area": [1, 2, 3, 4], "i_scans_negatively": 1, "j_points_consecutive": 1, "j_scans_positively": 1}
    g = GridSpec.from_dict(d if S.choice("with keys", True, False) else {"grid": kind})
    g["j_scans_positively"] = 1
    o = GridSpec.from_dict({"grid": "O32"})
    for f in FLAGS:
        S.check("defaults do not leak between specifications", o[f] == 0)
    S.check("default area does not leak", o["area"] == [90, 0, -90, 360] and len(o) == 6)


def listed(v):
    return list(v) if isinstance(v, tuple) else v


def snapshot(d):
    return [(k, v, list(v) if isinstance(v, list) else None) for k, v in d.items()]


def untouched(S, d, snap):
    keys = list(d.keys())
    S.check("caller's dict: same keys in the same order", keys == [k for k, v, c in snap])
    for k, v, c in snap:
        S.check("caller's dict: same values", S.same(d[k], v))
        if c is not None:
            S.check("caller's dict: lists not modified", d[k] == c)


def canonical(S, d, type_, added, renamed=()):
    """from_dict(d) keeps everything given and adds exactly the given defaults"""
    snap = snapshot(d)
    g = GridSpec.from_dict(d)
    untouched(S, d, snap)
    S.check("type inferred or kept", g["type"] == type_)
    for k, v, c in snap:
        if k in renamed:
            S.check("legacy ordering key renamed", k not in g)
            S.check("ordering kept under order", g["order"] == v)
        else:
            S.check("given key kept", g[k] == listed(v))
            S.check("tuples become lists", not isinstance(g[k], tuple))
    for f in FLAGS:
        if f not in d:
            S.check("missing scan flag defaults to 0", g[f] == 0)
    allowed = set([k for k, v, c in snap]) | set(FLAGS) | {"type"} | set(added)
    if renamed:
        allowed = (allowed - set(renamed)) | {"order"}
    S.check("nothing else is added", set(g.keys()) == allowed)
    # canonicalising a canonical specification changes nothing
    before = dict(g)
    g2 = GridSpec.from_dict(before)
    S.check("canonical form has the same keys again", set(g2.keys()) == set(g.keys()))
    for k in list(before.keys()):
        S.check("canonicalisation is idempotent", g2[k] == before[k])
    return g


def optional(S, d):
    """arbitrary further keys"""
    k = S.choice("further keys", "none", "some", "all")
    if k == "none":
        return
    d["j_scans_positively"] = S.int("jpos", 0, 1)
    if k == "some":
        d["shape"] = [S.int("ny", 1, 10**9), S.int("nx", 1, 10**9)]
        return
    d["i_scans_negatively"] = S.int("ineg", 0, 1)
    d["j_points_consecutive"] = S.int("jcons", 0, 1)
    d["shape"] = (S.int("ny", 1, 10**9), S.int("nx", 1, 10**9))
    d["my_key"] = S.str("my_key")
    d["my_tuple"] = (S.str("my_key"), S.int("i"))


def area(S):
    return S.real("n", -90, 90), S.real("w", -360, 720), S.real("s", -90, 90), S.real("e", -360, 720)


def inc(r):
    return r.choice([1.0, 5.0, 0.7, 0.25, 10.0, 7.0, 1.25, 0.1])


@harness(timeout=150, split={"area": 3})
def regular(S):
    """regular grids, with or without type, area and global flag"""
    grid = (S.real("dx", gen=inc), S.real("dy", gen=inc))
    d = {"grid": grid if S.choice("grid as", "tuple", "list") == "tuple" else list(grid)}
    k = S.choice("area", "absent", "list", "tuple")
    added = []
    if k == "absent":
        added.append("area")
    else:
        d["area"] = list(area(S)) if k == "list" else area(S)
    g = S.choice("global", None, 0, 1)
    if g is not None:
        d["global"] = g
    elif k == "absent":
        added.append("global")
    if S.choice("type", False, True):
        d["type"] = "regular_ll"
    optional(S, d)
    c = canonical(S, d, "regular_ll", added)
    S.check("a regular grid specification", c.is_regular_ll())
    if k == "absent":
        if g is None:
            S.check("a grid without area is global", c["global"] == 1)
            S.check("defaulted global area", global_area(S, c["area"], grid[0], grid[1]))
        else:
            S.check("defaulted area", is_default_area(S, c["area"]))


def steps(x, dx):
    """x is a whole number of increments (up to rounding of the increment)"""
    return abs(x - dx * round(x / dx)) < 1e-6


def global_area(S, a, dx, dy):
    if is_default_area(S, a):
        return True
    return (a[1] == 0 and steps(a[3], dx) and 360 - dx - 1e-6 <= a[3] and a[3] < 360
            and a[2] == -a[0] and steps(a[0], dy) and 90 - dy < a[0] and a[0] <= 90)


def n_gen(r):
    return r.choice([32, 1, 1000000, 320, 48])


@harness(timeout=150, split={"letter": 4})
def reduced(S):
    n = S.int("n", 1, 1000000, gen=n_gen)
    letter = S.choice("letter", "O", "o", "N", "n")
    d = {"grid": letter + str(n)}
    k = S.choice("area", "absent", "list", "tuple")
    if k != "absent":
        d["area"] = list(area(S)) if k == "list" else area(S)
    if S.choice("global", False, True):
        d["global"] = S.int("glob", 0, 1)
    if S.choice("type", False, True):
        d["type"] = "reduced_gg"
    optional(S, d)
    c = canonical(S, d, "reduced_gg", [] if k != "absent" else ["area"])
    S.check("grid number", c.N == n)
    S.check("octahedral", c.octahedral == (1 if letter in "Oo" else 0))
    S.check("not a regular grid", not c.is_regular_ll())
    if k == "absent":
        S.check("defaulted area", is_default_area(S, c["area"]))


@harness(timeout=150)
def healpix(S):
    n = S.int("n", 1, 1000000, gen=n_gen)
    d = {"grid": S.choice("letter", "H", "h") + str(n)}
    key = S.choice("key", None, "order", "ordering")
    if key is not None:
        d[key] = S.choice("order", "ring", "nested")
    if S.choice("type", False, True):
        d["type"] = "healpix"
    optional(S, d)
    c = canonical(S, d, "healpix", ["area"], ("ordering",) if key == "ordering" else ())
    S.check("grid number", c.N == n)
    S.check("ordering", c.order == (d[key] if key is not None else "ring"))
    S.check("defaulted area", is_default_area(S, c["area"]))


@harness(timeout=150)
def orca(S):
    d = {"grid": S.choice("prefix", "ORCA", "eORCA") + str(S.int("n", 0, 10**6)) + S.choice("staggering", "_F", "_T", "_U", "_V")}
    if S.choice("type", False, True):
        d["type"] = "orca"
    optional(S, d)
    canonical(S, d, "orca", [])


def bad_name(r):
    return r.choice(["", "O", "N", "x32", "O32a", "H8x", "Hx", "ORCA1_X", "eORCA_T", "ORCA025", "EORCA025_T", "O-1", "3", "healpix", "O 32"])


@harness(timeout=150)
def unsupported_names(S):
    """text that has none of the documented forms"""
    t = S.str("grid", gen=bad_name)
    S.assume(not name_of_known_form(S, t))
    d = {"grid": t}
    snap = snapshot(d)
    S.check("unknown grid names are refused", raises(S, GridSpec.from_dict, d))
    untouched(S, d, snap)


def name_of_known_form(S, t):
    return (NUMBERED.match(t) is not None) or (ORCA.match(t) is not None)


@harness(timeout=150)
def unsupported_kinds(S):
    x, y, z = S.real("x"), S.real("y"), S.real("z")
    grids = [[x], [x, y, z], [], (x, y, z), (x,), 32, None, 1.5, {"x": 1}, True]
    i = S.choice("i", *range(len(grids)))
    S.check("grids of other kinds are refused", raises(S, GridSpec.from_dict, {"grid": grids[i]}))


@harness(timeout=150)
def unsupported_types(S):
    t = S.str("type", gen=lambda r: r.choice(["", "regular", "REGULAR_LL", "gg", "lambert", "healpix "]))
    S.assume(t != "regular_ll" and t != "reduced_gg" and t != "healpix" and t != "orca")
    S.check("unknown types are refused", raises(S, GridSpec.from_dict, {"type": t, "grid": S.choice("grid", "O32", [1, 1], "H8", (5, 5))}))


def order_of(g):
    return g.order


def number_of(g):
    return g.N


def octahedral_of(g):
    return g.octahedral


def equals(g):
    return g == g


@harness(timeout=150)
def refused_when_used(S):
    what = S.choice("what", "order", "number H", "number O", "number N")
    if what == "order":
        o = S.str("order", gen=lambda r: r.choice(["Ring", "", "nest", "RING", "ring "]))
        S.assume(o != "ring" and o != "nested")
        d = {"grid": "H" + str(S.int("n", 1, 1000000, gen=n_gen)), S.choice("key", "order", "ordering"): o}
    else:
        n = S.int("n", 0, None, gen=lambda r: r.choice([0, 1000001, 10**9]))
        S.assume(n < 1 or n > 1000000)
        d = {"grid": what[-1] + str(n)}
    g = GridSpec.from_dict(d)
    use = S.choice("use", number_of, order_of, octahedral_of, equals)
    if what in ("number O", "number N"):
        S.assume(use is number_of or use is octahedral_of)
    else:
        S.assume(use is not octahedral_of)
    S.check("ill-formed ordering or number refused when first used", raises(S, use, g))
    S.check("and again when used again", raises(S, use, g))
