"""C21 The binary stream codec and MIR matrix decoding are exact."""
import io
import os
import struct

from pyvc.harness import harness
from earthkit.regrid.utils import mir as mir_utils
from earthkit.regrid.utils import stream as stream_module
from earthkit.regrid.utils.stream import Stream

PROPERTY = "C21"
LEVEL_NOTE = ("one harness per step: what a writer writes followed by anything is read back as the value leaving exactly what follows; "
              "sequences follow by induction. Double values and arrays are symbolic only as identities (no floating point arithmetic is done)")
ASSUMPTIONS = ["struct, io.BytesIO, numpy.frombuffer and csr_array behave as documented (contracts in pyvc/bytesm.py)"]

NUMBERS = ("int", "unsigned_int", "long", "unsigned_long", "unsigned_long_long")
BYTES = ("char", "unsigned_char", "string")
TAGS = {"char": 3, "unsigned_char": 4, "int": 5, "unsigned_int": 6, "long": 9, "unsigned_long": 10, "long_long": 11, "unsigned_long_long": 12, "double": 14, "string": 15, "large_blob": 21}


def number(S, name):
    return S.int(name, gen=lambda r: r.choice([0, 1, 127, 128, 255, 256, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33 + 5, 2**63, 2**64 - 1, 2**64, -1, -2**31, r.randint(0, 2**32), r.randint(0, 2**64)]))


def text(S, name):
    return S.blob(name)


def write(s, kind, v):
    getattr(s, "write_" + kind)(v)


def read(s, kind):
    return getattr(s, "read_" + kind)()


class Gone(Exception):
    pass


def attempt(f):
    """-> (value, None) or (None, the exception)"""
    try:
        return f(), None
    except Exception as e:
        return None, e


@harness(timeout=150)
def numbers(S):
    """a written number is refused or read back, whatever follows it"""
    kind = S.choice("kind", *NUMBERS)
    n = number(S, "n")
    rest = S.blob("rest")
    f = io.BytesIO()
    _, e = attempt(lambda: write(Stream(f), kind, n))
    if e is None:
        f.write(rest)
        f.seek(0)
        s = Stream(f)
        got, e2 = attempt(lambda: read(s, kind))
        S.check("the written number is read back", e2 is None and got == n)
        S.check("what follows is left", f.read() == rest)
    else:
        S.check("a number of 32 bits is not refused", S.either(n < 0, n >= 2**32))


@harness(timeout=150)
def texts(S):
    kind = S.choice("kind", *BYTES)
    v = S.blob("v")
    rest = S.blob("rest")
    f = io.BytesIO()
    _, e = attempt(lambda: write(Stream(f), kind, v))
    if e is None:
        f.write(rest)
        f.seek(0)
        s = Stream(f)
        got, e2 = attempt(lambda: read(s, kind))
        S.check("the written bytes are read back", e2 is None and got == v)
        S.check("what follows is left", f.read() == rest)
    else:
        S.check("bytes that fit are not refused", len(v) >= 2**32 if kind == "string" else len(v) != 1)


@harness(timeout=150, symbolic=False)
def history(S):
    """run time: any sequence of values, with ends of objects in between"""
    f = io.BytesIO()
    s = Stream(f)
    wrote = []
    for i in range(S.int("length", 0, 12)):
        kind = S.choice("kind", *(NUMBERS + BYTES))
        v = number(S, "n") if kind in NUMBERS else S.blob("b", 1 if kind != "string" else None)
        if kind in NUMBERS and not 0 <= v < 2**32:
            continue
        write(s, kind, v)
        wrote.append((kind, v))
        if S.int("end", 0, 3) == 0:
            s.end_object()
    f.seek(0)
    for kind, v in wrote:
        S.check("the values come back in order", read(s, kind) == v)


@harness(timeout=150, split={"kind": 11})
def tags(S):
    """a value with another tag than the one expected is refused"""
    kind = S.choice("kind", *TAGS)
    t = S.byte("tag")
    S.assume(t[0] != 2)
    ends, rest = S.choice("layout", (0, b""), (1, b"\0" * 12), (0, b"\0\0\0\5hello world"), (0, b"\0" * 7 + b"\3abcd"), (0, None), (2, None))
    if rest is None:  # a value of the kind after it
        rest = bytes([TAGS[kind]]) + b"\0" * 12
    f = io.BytesIO(bytes([2]) * ends + t + rest)
    got, e = attempt(lambda: read(Stream(f), kind))
    if e is None:
        S.check("a mismatched or unknown tag is refused", t[0] == TAGS[kind])


@harness(timeout=150)
def ends(S):
    """the end of an object before a value is skipped, and the end of the data is refused"""
    kind = S.choice("kind", *(NUMBERS + BYTES))
    n = S.int("n", 0, 2**32 - 1) if kind in NUMBERS else S.blob("b", 1)
    f = io.BytesIO()
    s = Stream(f)
    for i in range(S.choice("ends", 0, 1, 2)):
        s.end_object()
    last = S.choice("value", True, False)
    if last:
        write(s, kind, n)
    f.seek(0)
    got, e = attempt(lambda: read(s, kind))
    S.check("a missing value is refused", (e is None) == last)
    if last:
        S.check("the value is read", got == n)


class Source:
    """a stream of any length: what is asked of it"""

    def __init__(self, *parts):
        self.parts, self.asked = list(parts), []

    def read(self, n):
        self.asked.append(n)
        return self.parts.pop(0)


@harness(timeout=150)
def lengths(S):
    """texts and blobs of any length, also beyond what fits in memory: exactly so many bytes are read"""
    kind = S.choice("kind", "string", "large_blob")
    n = S.int("length", 0, 2**64 - 1 if kind == "large_blob" else 2**32 - 1, gen=lambda r: 2**r.randint(0, 63 if kind == "large_blob" else 31) + r.randint(-1, 1))
    v = S.token("bytes")
    f = Source(bytes([TAGS[kind]]), S.u64(n) if kind == "large_blob" else S.u32(n), v)
    got, e = attempt(lambda: read(Stream(f), kind))
    S.check("the bytes read are returned", e is None and got is v)
    S.check("as many bytes are read as there are", len(f.asked) == 3 and f.asked[2] == n)


@harness(timeout=150)
def unreadable(S):
    """types that cannot be read raise instead of giving something else"""
    kind = S.choice("kind", "double", "long_long")
    f = io.BytesIO()
    s = Stream(f)
    v = S.real("v") if kind == "double" else S.int("v", 0, 2**32 - 1)
    write(s, kind, v)
    f.seek(0)
    got, e = attempt(lambda: read(s, kind))
    S.check("reading raises or gives the value", e is not None or got == v)


def blob(S, b):
    return bytes([21]) + S.u64(len(b)) + b


def ulong(S, n):
    return bytes([10]) + S.u32(n)


@harness(timeout=150, native=False)
def matrix(S):
    """a matrix file of any size: exactly its rows, columns and arrays"""
    d = S.scratch()
    rows, cols, nnz = S.int("rows", 0, 2**32 - 1), S.int("cols", 0, 2**32 - 1), S.int("nnz", 0, 2**32 - 1)
    little = S.int("little", 0, 2**32 - 1)
    isize, fsize = S.int("index size", 0, 2**32 - 1), S.int("scalar size", 0, 2**32 - 1)
    outer, inner, data = S.blob("outer"), S.blob("inner"), S.blob("data")
    # what fits in a file
    for b in (outer, inner, data):
        S.suppose(len(b) < 2**63)
    S.write(d + "/m.mat", ulong(S, rows) + ulong(S, cols) + ulong(S, nnz) + bytes([5]) + S.u32(little) + ulong(S, isize) + ulong(S, fsize) + ulong(S, 8) + blob(S, outer) + blob(S, inner) + blob(S, data))
    z, e = attempt(lambda: mir_utils.mir_cached_matrix_to_array(d + "/m.mat"))
    known = S.all_of(isize == 4, S.either(fsize == 4, fsize == 8))
    if known:
        S.check("a matrix of a known layout is read", e is None)
    else:
        S.check("another layout is refused", e is not None)
    if e is None:
        o = "<" if little != 0 else ">"
        S.check("exactly the encoded rows, columns and entries", S.decoded(z, rows, cols, data, inner, outer, o + "f%d" % (8 if fsize == 8 else 4), o + "u4"))


def encode(w, little, fsize):
    import numpy as np
    o = "<" if little else ">"
    def ul(n):
        return bytes([10]) + struct.pack(">I", n)
    def lb(b):
        return bytes([21]) + struct.pack(">Q", len(b)) + b
    return (ul(w.shape[0]) + ul(w.shape[1]) + ul(w.nnz) + bytes([5]) + struct.pack(">I", int(little)) + ul(4) + ul(fsize) + ul(8)
            + lb(w.indptr.astype(o + "u4").tobytes()) + lb(w.indices.astype(o + "u4").tobytes()) + lb(w.data.astype(o + "f%d" % fsize).tobytes()))


@harness(symbolic=False, samples=60)
def files(S):
    """run time: encoded matrices, decoded directly and through the conversion to a file"""
    import numpy as np
    from scipy.sparse import load_npz
    w = S.weights("w")
    little, fsize = S.choice("little", True, False), S.choice("size", 4, 8)
    if fsize == 4:
        w = w.astype("f4")
    d = S.scratch()
    p = os.path.join(d, "m.mat")
    with open(p, "wb") as f:
        f.write(encode(w, little, fsize))
    z = mir_utils.mir_cached_matrix_to_array(p)
    S.check("the shape", z.shape == w.shape)
    S.check("the entries", (z.toarray() == w.toarray()).all() and z.nnz == w.nnz)
    S.check("the precision", z.dtype.itemsize == fsize)
    import pathlib
    t = os.path.join(d, "m.npz")
    target = pathlib.Path(t) if S.choice("as", "path", "text") == "path" else t
    mir_utils.mir_cached_matrix_to_file(p, target)
    y = load_npz(t)
    S.check("the file holds the same matrix", y.shape == w.shape and (y.toarray() == w.toarray()).all())


@harness(symbolic=False, samples=60)
def points(S):
    """run time: coordinates written for MIR: version, number and every pair in order, as eckit doubles"""
    import numpy as np
    n = S.int("n", 0, 5)
    m = n if S.int("other", 0, 4) else n + 1
    r = np.random.default_rng(S.int("seed", 0, 10**6))
    lat, lon = r.uniform(-90, 90, n), r.uniform(0, 360, m)
    d = S.scratch()
    p = os.path.join(d, "x.griddef")
    _, e = attempt(lambda: mir_utils.mir_write_latlon_to_griddef(p, lat, lon))
    S.check("an empty or uneven list is refused", isinstance(e, ValueError) == (n == 0 or n != m) and (e is None or isinstance(e, ValueError)))
    if e is None:
        want = bytes([10]) + struct.pack(">I", 1) + bytes([10]) + struct.pack(">I", n)
        for a, b in zip(lat, lon):
            for x in (a, b):
                q = struct.pack(">d", x)
                want += bytes([14]) + q[4:] + q[:4]
        with open(p, "rb") as f:
            S.check("exactly the given points", f.read() == want)
