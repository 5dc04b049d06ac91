"""Arrays and weight matrices of unknown size: the contracts of NumPy / SciPy sparse used by the verified code.

An array is its content (the sequence of its values in C order, an uninterpreted term) and its shape. reshape, ravel,
flatten and copy keep the content; the product of a weight matrix with a flat or one-column array is mv(matrix, content).
In-place changes are recorded on the array. Values are mathematical: rounding is not modelled."""
import ast
import numpy as np
import scipy.sparse
import z3
from .core import *
from .core import V
from .models import B, builtin

MV = z3.Function("mat_vec", V, V, V)
FLAT, COL, ROW, ANY = "flat", "col", "row", "any"


def derived(I, name, *args):
    f = z3.Function("arr_" + name, V, V)
    return f(I.toV(tuple(args)))


class Arr(ModelObj):
    pytypes = (np.ndarray,)

    def __init__(self, content, shape=(ANY,), base=None):
        self.content, self.shape = content, shape
        self.changed = False
        self.base = base            # a view: changing it changes the array it was taken from

    def touch(self):
        a = self
        while a is not None:
            a.changed = True
            a = a.base

    def toV(self, I):
        return derived(I, "array", Sym("opaque", self.content, meta={}), I_shape(I, self.shape))

    def new(self, shape, base=None):
        return Arr(self.content, shape, base)

    def m_reshape(self, I, *a, order="C", **k):
        if k:
            raise Unsupported("reshape options")
        content = self.content
        if order not in ("C",):
            content = derived(I, "reorder", Sym("opaque", content, meta={}), order)
        s = a[0] if len(a) == 1 else tuple(a)
        if isinstance(s, PList):
            s = tuple(s.items)
        if isinstance(s, tuple) and all(isinstance(x, int) for x in s):
            if s == (-1, 1):
                return Arr(content, (COL,), self)
            if s == (1, -1):
                return Arr(content, (ROW,), self)
            if s == (-1,):
                return Arr(content, (FLAT,), self)
        if s == -1:
            return Arr(content, (FLAT,), self)
        return Arr(content, ("as", s), self)

    def m_flatten(self, I, order="C"):
        r = self.m_reshape(I, -1, order=order)
        r.base = None
        return r

    def m_ravel(self, I, order="C"):
        return self.m_reshape(I, -1, order=order)

    def m_copy(self, I, *a, **k):
        return self.new(self.shape)

    def m_squeeze(self, I, *a):
        return self.new((FLAT,), self) if self.shape[0] in (COL, ROW, FLAT) else self.other(I, "squeeze", *a)

    def other(self, I, name, *a):
        return Arr(derived(I, name, Sym("opaque", self.content, meta={}), *a))

    def m_astype(self, I, *a, **k):
        return self.other(I, "astype", *[str(x) for x in a])

    def f_T(self, I):
        s = {COL: ROW, ROW: COL, FLAT: FLAT}.get(self.shape[0])
        return self.new((s,), self) if s else self.other(I, "T")

    def f_size(self, I):
        f = z3.Function("arr_size", V, z3.IntSort())
        n = f(self.content)
        I.run.assume(n >= 0)
        return mk("int", n)

    def f_dtype(self, I):
        raise Unsupported("dtype of an array")

    def f_shape(self, I):
        if self.shape[0] == "as":
            return self.shape[1]
        if self.shape[0] == FLAT:
            return (self.f_size(I),)
        if self.shape[0] == COL:
            return (self.f_size(I), 1)
        if self.shape[0] == ROW:
            return (1, self.f_size(I))
        raise Unsupported("shape of an arbitrary array")

    def f_ndim(self, I):
        if self.shape[0] == FLAT:
            return 1
        if self.shape[0] in (COL, ROW):
            return 2
        f = z3.Function("arr_ndim", V, z3.IntSort())
        n = f(self.content)
        I.run.assume(n >= 0)
        return mk("int", n)

    def setattr(self, I, name, v):
        self.touch()
        if name == "shape":
            self.shape = self.m_reshape(I, v).shape
            return
        raise Unsupported(f"assignment to array attribute {name}")

    def setitem(self, I, k, v):
        self.touch()
        self.content = derived(I, "setitem", Sym("opaque", self.content, meta={}), I.run.ghost.setdefault("arrn", 0))

    def iop(self, I, op, o):
        self.touch()
        self.content = derived(I, "iop" + type(op).__name__, Sym("opaque", self.content, meta={}))
        return self

    def binop(self, I, op, o, rev):
        if isinstance(op, ast.MatMult):
            if rev and isinstance(o, (Weights, Sym)):
                return product(I, o, self)
            raise Unsupported("array product")
        return self.other(I, ("r" if rev else "") + type(op).__name__, o)

    def eq(self, I, o):
        raise Unsupported("comparison of arrays")

    def truth(self, I):
        raise Unsupported("truth of an array")


def I_shape(I, s):
    return s[1] if s[0] == "as" else s[0]


def term_of(w):
    if isinstance(w, Weights):
        return w.t
    if isinstance(w, Sym) and w.kind == "opaque":
        return w.t
    raise Unsupported("product with something else than weights")


def product(I, w, a):
    if a.shape[0] not in (FLAT, COL):
        # a matrix product with an array of another shape is something else
        return Arr(derived(I, "matmul", Sym("opaque", term_of(w), meta={}), a))
    return Arr(MV(term_of(w), a.content), a.shape)


class Weights(ModelObj):
    """a sparse weight matrix"""
    pytypes = (scipy.sparse.csr_array,)

    def __init__(self, t):
        self.t = t

    def toV(self, I):
        return self.t

    def binop(self, I, op, o, rev):
        if isinstance(op, ast.MatMult) and not rev and isinstance(o, Arr):
            return product(I, self, o)
        raise Unsupported("operator on weights")

    def m_dot(self, I, o):
        return product(I, self, o)

    def eq(self, I, o):
        if isinstance(o, Weights):
            return mk("bool", self.t == o.t)
        return False

    def truth(self, I):
        raise Unsupported("truth of a matrix")


def install(SymS, NatS):
    def m_array(self, I, name, n=None):
        """an array of any size and shape"""
        return Arr(self.inp(I, name, "opaque", V))

    def m_weights(self, I, name, rows=None, cols=None):
        return Weights(self.inp(I, name, "opaque", V))

    def m_pure_weights(self, I, name, *args):
        return Weights(self._fn(I, name, args, V))

    def m_content(self, I, a):
        return Sym("opaque", a.content, meta={})

    def m_unchanged(self, I, a, kept):
        if not isinstance(a, Arr):
            return False
        return False if a.changed else mk("bool", a.content == kept.content)

    def m_keep(self, I, a):
        """what to compare with later"""
        return a.new(a.shape)

    def m_is_product(self, I, r, w, values, shape):
        """r is the weights times the values in C order, with the given shape"""
        if not isinstance(r, Arr):
            return False
        if r.shape[0] == "as":
            s = I.eq(r.shape[1], shape) if not isinstance(shape, (tuple, PList)) else I.eq(tuple(I.to_list(r.shape[1])), tuple(I.to_list(shape)))
        else:
            s = False
        return conj([mk("bool", r.content == MV(term_of(w), values.content)), s])

    def m_same_array(self, I, a, b):
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            return a is b
        s = a.shape[0] == b.shape[0] and (a.shape[0] != "as" or I.eq(a.shape[1], b.shape[1]))
        return conj([mk("bool", a.content == b.content), s])

    for f in (m_array, m_weights, m_pure_weights, m_unchanged, m_keep, m_is_product, m_same_array):
        setattr(SymS, f.__name__, f)

    def n_array(self, name, n=None):
        seed = self.int(name + ".seed", 0, 10**6)
        r = np.random.default_rng(seed)
        n = n if n is not None else self.int(name + ".n", 1, 12)
        a = r.standard_normal(n) * 10
        shapes = [(n,), (1, n), (n, 1)] + [(n // k, k) for k in (2, 3, 4) if n % k == 0]
        a = a.reshape(shapes[seed % len(shapes)])
        if seed % 7 == 0:
            a = np.asfortranarray(a)
        if seed % 11 == 0:
            a.reshape(-1)[seed % n] = np.nan
        return a

    def n_weights(self, name, rows=None, cols=None):
        r = np.random.default_rng(self.int(name + ".seed", 0, 10**6))
        rows = rows if rows is not None else self.int(name + ".rows", 1, 12)
        cols = cols if cols is not None else self.int(name + ".cols", 1, 12)
        return scipy.sparse.csr_array(r.random((rows, cols)) * (r.random((rows, cols)) < 0.6))

    def n_keep(self, a):
        return a.copy()

    def n_unchanged(self, a, kept):
        return a.shape == kept.shape and a.dtype == kept.dtype and np.array_equal(a, kept, equal_nan=True)

    def n_is_product(self, r, w, values, shape):
        want = (w @ np.ravel(values)).reshape(shape)
        return isinstance(r, np.ndarray) and r.shape == want.shape and np.allclose(r, want, rtol=1e-12, atol=1e-12, equal_nan=True)

    def n_same_array(self, a, b):
        return a is b or isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)

    for k, f in list(locals().items()):
        if k.startswith("n_"):
            setattr(NatS, k[2:], f)


@builtin(np.ravel)
def np_ravel(I, a, k):
    if isinstance(a[0], Arr):
        return a[0].m_reshape(I, -1, **k)
    raise Unsupported("ravel")


@builtin(np.reshape)
def np_reshape(I, a, k):
    if isinstance(a[0], Arr):
        return a[0].m_reshape(I, *a[1:], **k)
    raise Unsupported("reshape")


@builtin(np.array)
def np_array(I, a, k):
    if isinstance(a[0], Arr) and not k and len(a) == 1:
        return a[0].new(a[0].shape)
    return np_asarray(I, a, k)


@builtin(np.asarray, np.ascontiguousarray)
def np_asarray(I, a, k):
    if isinstance(a[0], Arr):
        return a[0] if not k and len(a) == 1 else a[0].other(I, "asarray", *[str(x) for x in list(a[1:]) + list(k.values())])
    from . import npm
    return npm.np_array(I, a, k)


@builtin(np.matmul, np.dot)
def np_matmul(I, a, k):
    if isinstance(a[1], Arr):
        return product(I, a[0], a[1])
    raise Unsupported("matmul")
