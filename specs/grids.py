"""Specification of grid specifications (shared by C02, C03, C04, C22, C23): plain functions, written from the
property statements."""


def near(x, y, eps=1e-8):
    return abs(x - y) < eps


def same4(S, a, b, eps):
    return S.all_of(near(a[0], b[0], eps), near(a[1], b[1], eps), near(a[2], b[2], eps), near(a[3], b[3], eps))


def is_default_area(S, area):
    return same4(S, area, [90, 0, -90, 360], 1e-8)


def norm360(x):
    return x % 360


def extent(S, west, east):
    """west-east extent in [0, 360), east taken at or after west"""
    return (norm360(east) - norm360(west)) % 360


def covers_all_longitudes(S, flag, area, dx):
    x = extent(S, area[1], area[3])
    return S.either(flag == 1, is_default_area(S, area), near(x, 0), near(x, 360), near(x, 360 - dx))


def reduced_dx(name):
    n = int(name[1:])
    if name[0] in "oO":
        return 360 / (4 * n + 16)
    return 360 / (4 * n)


def ew_regular(S, g):
    return covers_all_longitudes(S, g.get("global", 0), g["area"], abs(g["grid"][0]))


def ew_reduced(S, g):
    return covers_all_longitudes(S, g.get("global", 0), g["area"], reduced_dx(g["grid"]))


FLAGS = ("i_scans_negatively", "j_points_consecutive", "j_scans_positively")


def common_equal(S, a, b):
    if a["type"] != b["type"]:
        return False
    conds = []
    for f in FLAGS:
        conds.append(a[f] == b[f])
    if "shape" in a and "shape" in b:
        conds.append(a["shape"] == b["shape"])
    return S.all_of(*conds)


def increments_equal(S, a, b):
    return S.all_of(abs(a[0] - b[0]) <= 1e-6, abs(a[1] - b[1]) <= 1e-6)


def grids_equal(S, a, b):
    """equality of two canonical grid specifications"""
    c = common_equal(S, a, b)
    if c is False:
        return False
    t = a["type"]
    if t == "regular_ll":
        wa, wb = norm360(a["area"][1]), norm360(b["area"][1])
        return S.all_of(
            c,
            increments_equal(S, a["grid"], b["grid"]),
            S.either(
                same4(S, a["area"], b["area"], 1e-8),
                S.all_of(near(a["area"][0], b["area"][0]), near(a["area"][2], b["area"][2]),
                         ew_regular(S, a), ew_regular(S, b), near(wa, wb))))
    names = a["grid"].lower() == b["grid"].lower()
    if t == "reduced_gg":
        if not S.symbolic and not names:
            return False
        wa, wb = norm360(a["area"][1]), norm360(b["area"][1])
        return S.all_of(
            c,
            names,
            S.either(
                same4(S, a["area"], b["area"], 0.12),
                S.all_of(ew_reduced(S, a), ew_reduced(S, b), near(wa, wb, 0.12))))
    if t == "healpix":
        return S.all_of(c, names, a.get("order", "ring") == b.get("order", "ring"))
    return S.all_of(c, names)


def boundary(S, a, b):
    """run-time checks stay away from rounding noise at a tolerance"""
    if S.symbolic:
        return False
    ds = []
    if "area" in a and "area" in b:
        ds += [(abs(x - y), e) for x, y in zip(a["area"], b["area"]) for e in (1e-8, 0.12)]
        ds.append((abs(norm360(a["area"][1]) - norm360(b["area"][1])), 1e-8))
        ds.append((abs(norm360(a["area"][1]) - norm360(b["area"][1])), 0.12))
        for g in (a, b):
            x = extent(S, g["area"][1], g["area"][3])
            dx = abs(g["grid"][0]) if isinstance(g["grid"], list) else reduced_dx(g["grid"]) if g["type"] == "reduced_gg" else 1
            ds += [(abs(x), 1e-8), (abs(x - 360), 1e-8), (abs(x - 360 + dx), 1e-8)]
            ds += [(abs(x - y), 1e-8) for x, y in zip(g["area"], [90, 0, -90, 360])]
    if isinstance(a["grid"], list) and isinstance(b["grid"], list):
        ds += [(abs(x - y), 1e-6) for x, y in zip(a["grid"], b["grid"])]
    return any(0.99 * t < d < 1.01 * t for d, t in ds)
