"""Byte strings with symbolic content and the contracts of struct, io.BytesIO, numpy.frombuffer and scipy.sparse.csr_array.

parts: bytes | ("int", n, term) an n-byte big-endian unsigned field | ("f64", term) the big-endian bytes of a double |
("enc", str) the UTF-8 encoding of a text | ("blob", V term, length term) bytes about which only their identity is known"""
import io, struct
import numpy as np
import scipy.sparse
import z3
from .core import *
from .core import V
from . import strs
from .models import B, builtin, native

HI = z3.Function("f64_hi", z3.RealSort(), z3.IntSort())
LO = z3.Function("f64_lo", z3.RealSort(), z3.IntSort())
SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "d": 8, "?": 1}
NATIVE_SIZES = dict(SIZES, l=8, L=8)


def parts_of(b):
    return [b] if isinstance(b, bytes) else list(b.parts)


def make(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes):
            if not p:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] += p
                continue
        elif p[0] == "int" and z3.is_int_value(z3.simplify(p[2])):
            v = z3.simplify(p[2]).as_long().to_bytes(p[1], "big")
            if out and isinstance(out[-1], bytes):
                out[-1] += v
            else:
                out.append(v)
            continue
        out.append(p)
    if not out:
        return b""
    if len(out) == 1 and isinstance(out[0], bytes):
        return out[0]
    return SymBytes(out)


def concat(a, b):
    return make(parts_of(a) + parts_of(b))


def plen(I, p):
    if isinstance(p, bytes):
        return len(p)
    if p[0] == "int":
        return p[1]
    if p[0] == "f64":
        return 8
    if p[0] == "blob":
        return mk("int", p[2])
    if p[0] == "enc":
        f = z3.Function("utf8_len", V, z3.IntSort())
        t = f(I.toV(p[1]))
        I.run.assume(t >= 0)
        return mk("int", t)
    raise Unsupported("length of bytes")


def length(I, b):
    n = 0
    t = None
    for p in parts_of(b):
        x = plen(I, p)
        if isinstance(x, int):
            n += x
        else:
            t = x.t if t is None else t + x.t
    return n if t is None else mk("int", t + n)


def truth(I, b):
    n = length(I, b)
    return n > 0 if isinstance(n, int) else n.t != 0


def split(I, p, k):
    """p as two parts of k bytes and the rest (0 < k < length, concrete)"""
    if isinstance(p, bytes):
        return p[:k], p[k:]
    if p[0] == "f64":
        p4 = [("int", 4, HI(p[1])), ("int", 4, LO(p[1]))]
        for f in (HI, LO):
            I.run.assume(z3.And(f(p[1]) >= 0, f(p[1]) < 2 ** 32))
        if k == 4:
            return p4[0], p4[1]
        raise Unsupported("splitting a double")
    if p[0] == "int":
        d = 256 ** (p[1] - k)
        return ("int", k, p[2] / d), ("int", p[1] - k, p[2] % d)
    raise Unsupported("splitting opaque bytes")


def take(I, parts, n):
    """-> (taken, rest), fewer than n bytes when there are not enough"""
    got, rest = [], list(parts)
    while rest:
        if isinstance(n, int) and n <= 0:
            break
        p = rest[0]
        l = plen(I, p)
        if isinstance(n, int) and isinstance(l, int):
            if l <= n:
                got.append(p)
                rest.pop(0)
                n -= l
            else:
                a, b = split(I, p, n)
                got.append(a)
                rest[0] = b
                n = 0
            continue
        tn, tl = int_term(n), int_term(l)
        if I.run.branch(tn >= tl):
            got.append(p)
            rest.pop(0)
            n = mk("int", z3.simplify(tn - tl))
            if isinstance(n, Sym) and I.run.valid(n.t == 0):
                n = 0
            continue
        if I.run.branch(tn <= 0):
            break
        for j in range(1, l if isinstance(l, int) and l <= 8 else 0):
            if I.run.branch(tn == j):
                a, b = split(I, p, j)
                got.append(a)
                rest[0] = b
                return got, rest
        raise Unsupported("part of opaque bytes")
    return got, rest


def unsigned(I, parts, order):
    """unsigned integer value of the bytes"""
    v, n = 0, 0
    flat = list(parts)
    if order == "<":
        flat2 = []
        for p in flat:
            while True:
                l = plen(I, p)
                if not isinstance(l, int):
                    raise Unsupported("integer of opaque bytes")
                if l == 1 or isinstance(p, bytes):
                    flat2.append(p)
                    break
                a, p = split(I, p, 1)
                flat2.append(a)
        flat = [p[::-1] if isinstance(p, bytes) else p for p in reversed(flat2)]
    for p in flat:
        if isinstance(p, bytes):
            x, l = int.from_bytes(p, "big"), len(p)
        elif p[0] == "int":
            x, l = p[2], p[1]
        elif p[0] == "f64":
            a, b = split(I, p, 4)
            x, l = a[2] * 2 ** 32 + b[2], 8
        elif p[0] == "blob":
            if not I.run.valid(p[2] == 1):
                raise Unsupported("integer of opaque bytes")
            f = z3.Function("byte_value", V, z3.IntSort())
            x, l = f(p[1]), 1
            I.run.assume(z3.And(x >= 0, x < 256))
        else:
            raise Unsupported("integer of opaque bytes")
        v = v * 256 ** l + x
    return v


def parse(fmt):
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    codes = []
    num = ""
    for c in fmt:
        if c.isdigit():
            num += c
            continue
        if c == " ":
            continue
        codes += [c] * (int(num) if num else 1)
        num = ""
    sizes = NATIVE_SIZES if order == "@" else SIZES
    if any(c not in sizes for c in codes) or (order == "@" and len(codes) > 1 and len(set(codes)) > 1):
        raise Unsupported("struct format")
    return {"!": ">", ">": ">", "<": "<", "=": "<", "@": "<"}[order], [(c, sizes[c]) for c in codes]


@builtin(struct.pack)
def b_pack(I, a, k):
    if all(not isinstance(x, Sym) for x in a):
        return native(I, struct.pack, a, k)
    order, codes = parse(a[0])
    vals = a[1:]
    if len(vals) != len(codes):
        I.raise_(struct.error, "pack expected another number of items")
    out = []
    for (c, n), v in zip(codes, vals):
        if c == "d":
            if not is_num(v):
                I.raise_(struct.error, "required argument is not a float")
            p = ("f64", real_term(v))
            if order == "<":
                raise Unsupported("little-endian double")
            out.append(p)
            continue
        if not (isinstance(v, int) or isinstance(v, Sym) and v.kind in ("int", "bool")):
            I.raise_(struct.error, "required argument is not an integer")
        t = int_term(v)
        lo, hi = (0, 256 ** n) if c.isupper() else (-(256 ** n // 2), 256 ** n // 2)
        if not I.run.branch(z3.And(t >= lo, t < hi)):
            I.raise_(struct.error, "argument out of range")
        u = t if c.isupper() else z3.If(t < 0, t + 256 ** n, t)
        p = ("int", n, u)
        if order == "<" and n > 1:
            bs = []
            for _ in range(n - 1):
                x, p = split(I, p, 1)
                bs.append(x)
            bs.append(p)
            out += list(reversed(bs))
        else:
            out.append(p)
    return make(out)


@builtin(struct.unpack)
def b_unpack(I, a, k):
    data = a[1]
    if isinstance(data, bytes) and isinstance(a[0], str):
        return native(I, struct.unpack, a, k)
    if not isinstance(data, SymBytes):
        I.raise_(TypeError, "a bytes-like object is required")
    order, codes = parse(a[0])
    need = sum(n for _, n in codes)
    if not I.decide(I.eq(length(I, data), need)):
        I.raise_(struct.error, "unpack requires another number of bytes")
    parts = parts_of(data)
    out = []
    for c, n in codes:
        got, parts = take(I, parts, n)
        if c == "d":
            if len(got) == 1 and not isinstance(got[0], bytes) and got[0][0] == "f64" and order == ">":
                out.append(mk("real", got[0][1]))
                continue
            if all(isinstance(p, bytes) for p in got):
                out.append(struct.unpack(order + "d", b"".join(got))[0])
                continue
            # the two words of a double in order
            if len(got) == 2 and order == ">" and all(not isinstance(p, bytes) and p[0] == "int" and p[1] == 4 for p in got):
                h, l = got[0][2], got[1][2]
                if z3.is_app(h) and h.decl().eq(HI) and z3.is_app(l) and l.decl().eq(LO) and h.arg(0).eq(l.arg(0)):
                    out.append(mk("real", h.arg(0)))
                    continue
            raise Unsupported("double of unknown bytes")
        u = unsigned(I, got, order)
        if isinstance(u, int):
            out.append(u if c.isupper() or u < 256 ** n // 2 else u - 256 ** n)
        else:
            out.append(mk("int", u if c.isupper() else z3.If(u >= 256 ** n // 2, u - 256 ** n, u)))
    return tuple(out)


@builtin(int.from_bytes)
def b_from_bytes(I, a, k):
    data = a[0]
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    if isinstance(data, bytes):
        return native(I, int.from_bytes, a, k)
    u = unsigned(I, parts_of(data), "<" if order == "little" else ">")
    n = length(I, data)
    if k.get("signed"):
        if not isinstance(n, int):
            raise Unsupported("signed integer of unknown size")
        u = z3.If(int_term(u) >= 256 ** n // 2, int_term(u) - 256 ** n, int_term(u))
    return u if isinstance(u, int) else mk("int", u)


@builtin(ord)
def b_ord(I, a, k):
    v = a[0]
    if isinstance(v, SymBytes):
        if not I.decide(I.eq(length(I, v), 1)):
            I.raise_(TypeError, "ord() expected a character")
        u = unsigned(I, parts_of(v), ">")
        return u if isinstance(u, int) else mk("int", u)
    if isinstance(v, (str, bytes)):
        return native(I, ord, a, k)
    if isinstance(v, Sym) and v.kind == "str":
        raise Unsupported("ord of symbolic text")
    I.raise_(TypeError, "ord() expected string of length 1")


def eq(I, a, b):
    if not isinstance(a, (bytes, SymBytes)) or not isinstance(b, (bytes, SymBytes)):
        return False
    pa, pb = parts_of(a), parts_of(b)
    res = [I.eq(length(I, a), length(I, b))]
    if res[0] is False:
        return False
    while pa and pb:
        p, q = pa[0], pb[0]
        if not isinstance(p, bytes) and not isinstance(q, bytes) and p[0] == q[0] and p[0] in ("blob", "enc", "f64"):
            if p[0] == "f64":
                res.append(mk("bool", p[1] == q[1]))
            elif p[0] == "enc":
                res.append(I.eq(p[1], q[1]))
            else:
                res.append(conj([mk("bool", p[1] == q[1]), mk("bool", p[2] == q[2])]))
            pa.pop(0), pb.pop(0)
            continue
        l, m = plen(I, p), plen(I, q)
        if not (isinstance(l, int) and isinstance(m, int)):
            raise Unsupported("comparison of opaque bytes")
        n = min(l, m)
        if l > n:
            p, r = split(I, p, n)
            pa[0:1] = [p, r]
        if m > n:
            q, r = split(I, q, n)
            pb[0:1] = [q, r]
        x, y = unsigned(I, [p], ">"), unsigned(I, [q], ">")
        res.append(I.eq(x if isinstance(x, int) else mk("int", x), y if isinstance(y, int) else mk("int", y)))
        pa.pop(0), pb.pop(0)
    for p in pa + pb:
        l = plen(I, p)
        res.append(I.eq(l, 0))
    return conj(res)


def getitem(I, b, k):
    if isinstance(b, bytes) and not isinstance(k, Sym):
        return b[k]
    if isinstance(k, slice) and k.step is None:
        lo = k.start or 0
        if isinstance(lo, int) and lo >= 0 and not (isinstance(k.stop, int) and k.stop < 0):
            _, rest = take(I, parts_of(b), lo)
            if k.stop is None:
                return make(rest)
            got, _ = take(I, rest, k.stop - lo if isinstance(k.stop, int) else mk("int", int_term(k.stop) - lo))
            return make(got)
    if isinstance(k, int) and k >= 0:
        _, rest = take(I, parts_of(b), k)
        got, _ = take(I, rest, 1)
        if not got:
            I.raise_(IndexError, "index out of range")
        u = unsigned(I, got, ">")
        return u if isinstance(u, int) else mk("int", u)
    raise Unsupported("subscript of bytes")


def method(I, b, name):
    if name == "join" and isinstance(b, bytes):
        def join(I_, a, k):
            out = []
            for i, x in enumerate(I.to_list(a[0])):
                if i:
                    out.append(b)
                out += parts_of(x)
            return make(out)
        return Model(join, "bytes.join")
    raise Unsupported(f"bytes.{name}")


class BytesIOModel(ModelObj):
    pytypes = (io.BytesIO,)

    def __init__(self, data=b""):
        self.done, self.rest = [], [p for p in parts_of(data) if p != b""]

    def enter(self, I):
        return self

    def exit(self, I, e):
        return False

    def m_close(self, I):
        return None

    def m_flush(self, I):
        return None

    def m_read(self, I, n=-1):
        if n is None or n == -1:
            got, self.rest = self.rest, []
        else:
            got, self.rest = take(I, self.rest, n)
        self.done += got
        return make(got)

    def m_read1(self, I, n=-1):
        return self.m_read(I, n)

    def m_write(self, I, b):
        if not isinstance(b, (bytes, SymBytes)):
            I.raise_(TypeError, "a bytes-like object is required")
        if self.rest:
            raise Unsupported("overwriting bytes")
        self.done += [p for p in parts_of(b) if p != b""]
        return length(I, b)

    def m_getvalue(self, I):
        return make(self.done + self.rest)

    m_getbuffer = m_getvalue

    def m_tell(self, I):
        return length(I, SymBytes(self.done))

    def m_seek(self, I, n, whence=0):
        allp = self.done + self.rest
        if whence == 2 and n == 0:
            self.done, self.rest = allp, []
        elif whence == 0:
            self.done, self.rest = take(I, allp, n)
        else:
            raise Unsupported("seek")
        return self.m_tell(I)


@builtin(io.BytesIO)
def b_bytesio(I, a, k):
    return BytesIOModel(a[0] if a else b"")


class NpBuf(ModelObj):
    """array over bytes"""
    pytypes = (np.ndarray,)

    def __init__(self, data, dtype):
        self.data, self.dtype = data, dtype

    def f_dtype(self, I):
        return self.dtype

    def m_copy(self, I):
        return self

    def m_astype(self, I, dt, **k):
        if isinstance(dt, type) or isinstance(dt, np.dtype) or isinstance(dt, str):
            d = np.dtype(dt)
            if d == self.dtype:
                return self
            # value-preserving: same kind, at least as wide
            if d.kind == self.dtype.kind and d.itemsize >= self.dtype.itemsize:
                r = NpBuf(self.data, self.dtype)
                r.as_ = d
                return r
        raise Unsupported("conversion of an array")


@builtin(np.frombuffer)
def b_frombuffer(I, a, k):
    dt = k.get("dtype", a[1] if len(a) > 1 else float)
    if len(a) > 2 or set(k) - {"dtype"}:
        raise Unsupported("frombuffer options")
    if not isinstance(a[0], (bytes, SymBytes)):
        raise Unsupported("frombuffer of something else than bytes")
    return NpBuf(a[0], np.dtype(dt))


class Csr(ModelObj):
    pytypes = (scipy.sparse.csr_array,)

    def __init__(self, data, indices, indptr, shape):
        self.data, self.indices, self.indptr, self.shape = data, indices, indptr, shape

    def f_shape(self, I):
        return self.shape

    def f_data(self, I):
        return self.data

    def f_indices(self, I):
        return self.indices

    def f_indptr(self, I):
        return self.indptr

    def m_tocsr(self, I, *a):
        return self


@builtin(scipy.sparse.csr_array, scipy.sparse.csr_matrix)
def b_csr(I, a, k):
    if isinstance(a[0], Csr):
        return a[0]
    if not isinstance(a[0], tuple) or len(a[0]) != 3 or set(k) - {"shape"}:
        raise Unsupported("csr_array arguments")
    return Csr(*a[0], k.get("shape", a[1] if len(a) > 1 else None))


@builtin(np.dtype)
def b_dtype(I, a, k):
    return native(I, np.dtype, a, k)


def install(SymS, NatS):
    def m_blob(self, I, name, n=None):
        """bytes about which nothing is known; n: their number"""
        t = self.inp(I, name, "opaque", V)
        if n is None:
            f = z3.Function("blob_len", V, z3.IntSort())
            l = f(t)
            I.run.assume(l >= 0)
        else:
            l = int_term(n)
        return SymBytes([("blob", t, l)])

    def m_byte(self, I, name):
        """one byte of any value"""
        t = self.inp(I, name, "int", z3.IntSort())
        I.run.assume(z3.And(t >= 0, t < 256))
        return SymBytes([("int", 1, t)])

    def m_u32(self, I, n):
        return b_pack(I, ["!L", n], {})

    def m_u64(self, I, n):
        return b_pack(I, ["!Q", n], {})

    def m_decoded(self, I, z, rows, cols, data, inner, outer, dtype, itype):
        """the matrix consists of exactly these parts"""
        if not isinstance(z, Csr):
            return False
        def buf(x, b, dt):
            if not isinstance(x, NpBuf):
                return False
            return conj([x.dtype == np.dtype(dt), eq(I, x.data, b)])
        if z.shape is None:
            return False
        s = I.to_list(z.shape)
        return conj([I.eq(s[0], rows), I.eq(s[1], cols), buf(z.data, data, dtype), buf(z.indices, inner, itype), buf(z.indptr, outer, itype)])

    for f in (m_blob, m_byte, m_u32, m_u64, m_decoded):
        setattr(SymS, f.__name__, f)

    def n_blob(self, name, n=None):
        seed = self.int(name + ".seed", 0, 10**6)
        n = n if n is not None else self.int(name + ".n", gen=lambda r: r.choice([255, 256, 65535, 65536, 70001, 131072 + 3]) if r.random() < 0.1 else r.randint(0, 40))
        return np.random.default_rng(seed).bytes(n)

    def n_byte(self, name):
        return bytes([self.int(name, 0, 255)])

    def n_u32(self, n):
        return struct.pack("!L", n)

    def n_u64(self, n):
        return struct.pack("!Q", n)

    for k, f in list(locals().items()):
        if k.startswith("n_"):
            setattr(NatS, k[2:], f)
