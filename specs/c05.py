"""C05 Longitude normalisation and global coverage detection."""
from pyvc.harness import harness
from earthkit.regrid.gridspec import GridSpec, LLGridSpec, ReducedGGGridSpec

PROPERTY = "C05"


def ang(rng):
    """angles around multiples of 360 and increments, exactly representable"""
    base = rng.choice([0, 360, -360, 720, -720, 180, 90, 359, 1, 10, 350])
    return float(base + rng.choice([0, 0, 0, 0.5, -0.5, 0.25, 1, -1, 5, -5, 355, 10]))


@harness
def normalise_lon(S):
    lon = S.real("lon", gen=lambda r: r.choice([ang(r), r.randint(-3000, 3000) / 4.0]))
    minimum = S.real("minimum", gen=lambda r: r.choice([0.0, -180.0, 10.0, 360.0, ang(r)]))
    r = GridSpec.normalise_lon(lon, minimum)
    S.check("normalise_lon: result >= minimum", r >= minimum)
    S.check("normalise_lon: result < minimum + 360", r < minimum + 360)
    # congruent modulo 360 (% leaves a multiple of 360); this is also the contract the callers use
    S.check("normalise_lon: congruent to the argument modulo 360",
            abs(r - normalise_contract(S, lon, minimum)) <= S.tol)


def norm(x):
    return x % 360


def extent(west, east):
    w = norm(west)
    e = norm(east)
    if e < w:
        e = e + 360
    return e - w


def near(x, y):
    return abs(x - y) < 1e-8


def ambiguous(S, d, ts):
    """native runs stay away from the rounding noise around a threshold"""
    if S.symbolic:
        return False
    for t in ts:
        if 0.9e-8 < abs(d - t) < 1.1e-8:
            return True
    return False


def default_area(area):
    return near(area[0], 90) and near(area[1], 0) and near(area[2], -90) and near(area[3], 360)


def normalise_contract(S, lon, minimum):
    return minimum + (lon - minimum) % 360


@harness
def global_ew_regular(S):
    S.use_contract(GridSpec.normalise_lon, normalise_contract)
    dx = S.real("dx", gen=lambda r: r.choice([1.0, 5.0, 10.0, 0.25, -1.0, -5.0, 0.5]))
    dy = S.real("dy", gen=lambda r: 1.0)
    north = S.real("north", gen=lambda r: r.choice([90.0, 90.0, 80.0]))
    south = S.real("south", gen=lambda r: r.choice([-90.0, -90.0, -80.0]))
    west = S.real("west", gen=ang)
    if not S.symbolic and S.bool("related"):
        east = S.real("east", gen=lambda r: west + r.choice([0, 360, 360 - abs(dx), -abs(dx), 720, 355]))
    else:
        east = S.real("east", gen=ang)
    flag = S.choice("global", None, 0, 1)
    d = {"grid": [dx, dy], "area": [north, west, south, east]}
    if flag is not None:
        d["global"] = flag
    g = GridSpec.from_dict(d)
    area = [north, west, south, east]
    x = extent(west, east)
    if ambiguous(S, x, [0, 360, 360 - abs(dx)]):
        return
    want = flag == 1 or default_area(area) or near(x, 0) or near(x, 360) or near(x, 360 - abs(dx))
    S.check("regular grid: global coverage exactly as specified", g.is_global_ew() == want)
    S.check("regular grid: repeated queries agree", g.is_global_ew() == want)


@harness
def global_ew_reduced(S):
    S.use_contract(GridSpec.normalise_lon, normalise_contract)
    kind = S.choice("kind", "O", "N", "o", "n")
    n = S.int("n", 1, 1000000, gen=lambda r: r.choice([1, 2, 16, 32, 90, 96, 320, 1280]))
    north = S.real("north", gen=lambda r: r.choice([90.0, 80.0]))
    south = S.real("south", gen=lambda r: r.choice([-90.0, -80.0]))
    west = S.real("west", gen=ang)
    octa = kind == "O" or kind == "o"
    dx = 360 / (4 * n + 16) if octa else 360 / (4 * n)
    if not S.symbolic and S.bool("related"):
        east = S.real("east", gen=lambda r: west + r.choice([0, 360, 360 - dx, -dx, 720, 355]))
    else:
        east = S.real("east", gen=ang)
    flag = S.choice("global", None, 0, 1)
    d = {"grid": kind + str(n), "area": [north, west, south, east]}
    if flag is not None:
        d["global"] = flag
    g = GridSpec.from_dict(d)
    x = extent(west, east)
    if ambiguous(S, x, [0, 360, 360 - dx]):
        return
    want = flag == 1 or default_area([north, west, south, east]) or near(x, 0) or near(x, 360) or near(x, 360 - dx)
    S.check("reduced grid: global coverage exactly as specified", g.is_global_ew() == want)


@harness(samples=60)
def no_area_is_global(S):
    grid = S.choice("grid", "O32", "N32", [1, 1], [0.25, 0.25], [7, 9])
    g = GridSpec.from_dict({"grid": grid})
    S.check("grid without area: global coverage", g.is_global_ew() == True)  # noqa: E712
