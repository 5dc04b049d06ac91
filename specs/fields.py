"""Stand-ins for earthkit-data and the backends (C18, C19)."""
import earthkit.data
import earthkit.data.readers.grib.codes as codes
import earthkit.data.readers.grib.memory as memory

from earthkit.regrid import backends


# ------------------------------------------------------------------------------- contract of earthkit-data
class Metadata:
    def __init__(self, gridspec, rest):
        self.gridspec, self.rest = gridspec, rest

    def override(self, gridspec=None):
        return Metadata(gridspec, self.rest)


class Values:
    """the values of a field: which ones, and how many"""
    ndim = 1

    def __init__(self, S, what):
        self.what = what
        self.size = S.pure_int("size", what)
        S.assume(self.size >= 0)

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        return self.size


class Field:
    def __init__(self, S, values, md, message=None):
        self.S, self.values, self.md, self.msg = S, values, md, message

    def to_numpy(self, flatten=False):
        S = self.S
        return Values(S, self.values) if flatten else Values(S, ("two-dimensional", self.values))

    def metadata(self):
        return self.md

    def message(self):
        return self.msg


class NotField:
    """a field that is no GRIB message but can be made one"""

    def __init__(self, values, md, handle):
        self.values, self.md, self.handle = values, md, handle


class NoField:
    pass


class NoMetadata:
    @property
    def gridspec(self):
        raise KeyError("gridspec")


class InMemory:
    def __init__(self, message):
        self.msg = message

    @staticmethod
    def from_buffer(message):
        return InMemory(message)


class Fields:
    def __init__(self, items=None):
        self.items = [] if items is None else items

    @staticmethod
    def from_fields(items):
        return Fields(items)

    @staticmethod
    def from_numpy(values, md):
        return Fields([Field(None, values, md)])

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __iadd__(self, other):
        for x in other.items:
            self.items.append(x)
        return self

    def __add__(self, other):
        return Fields(self.items + other.items)


class Encoder:
    def __init__(self, S):
        self.S = S

    def encode(self, field):
        return Bytes(self.S.pure("encoded", field.handle))


class Bytes:
    def __init__(self, b):
        self.b = b

    def to_bytes(self):
        return self.b


class Arrays:
    """a backend for arrays: contract of the precomputed backend (C01-C05)"""

    def __init__(self, S):
        self.S = S
        self.options = []

    def regrid(self, values, in_grid, out_grid, interpolation="linear", **kwargs):
        self.S.check("only the interpolation is passed on", kwargs == {})
        return self.S.pure("regridded", values.what if isinstance(values, Values) else values, in_grid, out_grid, interpolation), out_grid

    def interpolate(self, values, in_grid, out_grid, method, **kwargs):
        return self.regrid(values, in_grid, out_grid, method, **kwargs)[0]


class Messages:
    """a backend for messages: contract of the MIR backend (C20)"""

    def __init__(self, S):
        self.S = S

    def regrid(self, *args, **kwargs):
        self.S.check("messages are regridded as messages", False)

    def regrid_grib(self, message, grid, interpolation="linear", **kwargs):
        self.S.check("only the interpolation is passed on", kwargs == {})
        return self.S.pure("regridded message", message, grid, interpolation)


def data(S, backend):
    S.patch(earthkit.data, "FieldList", Fields)
    S.patch(earthkit.data, "Field", Field)
    S.patch(earthkit.data, "create_encoder", lambda name: Encoder(S))
    S.patch(codes, "GribField", Field)
    S.patch(memory, "GribFieldInMemory", InMemory)
    asked = []

    def get_backend(name, **kwargs):
        asked.append((name, kwargs))
        return backend
    S.patch(backends, "get_backend", get_backend)
    return asked


def fl_spec(grid):
    from earthkit.regrid.gridspec import GridSpec
    return GridSpec.from_dict(grid)


LATLON = ({"grid": [1, 1]}, {"grid": (2, 2)}, {"type": "regular_ll", "grid": [0.5, 0.5]}, {"grid": [10, 10], "area": [60, 0, 0, 60]})
OTHER = ({"grid": "O32"}, {"grid": "N8"}, {"grid": "H4"}, {"grid": "h32", "order": "nested"}, {"grid": "eORCA025_T"}, {"type": "reduced_gg", "grid": "O32"},
         {"grid": "F320"}, {"grid": "no grid"}, {"grid": [1, 1], "type": "unknown"}, {"grid": [1, 2, 3]}, {"grid": 1})
