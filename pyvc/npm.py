"""Assumed contracts of the NumPy functions used by the verified code (small concrete-shape arrays, opaque arrays)."""
import z3
import numpy as np
from .core import *
from .core import V
from .models import B, builtin, native, host, NotHost
from . import models


class NpArr(ModelObj):
    """array of known shape with symbolic elements (1-d)"""
    pytypes = (np.ndarray,)

    def __init__(self, items):
        self.items = list(items)

    def f_shape(self, I):
        return (len(self.items),)

    def f_ndim(self, I):
        return 1

    def f_size(self, I):
        return len(self.items)

    def length(self, I):
        return len(self.items)

    def to_list(self, I):
        return list(self.items)

    def m_tolist(self, I):
        return I.plist(self.items)

    def getitem(self, I, k):
        return I.getitem(tuple(self.items), k)

    def _ew(self, I, o, f):
        b = o.items if isinstance(o, NpArr) else I.to_list(o) if isinstance(o, (PList, tuple)) else [o] * len(self.items)
        a = self.items
        if len(a) != len(b):
            if len(a) == 1:
                a = a * len(b)
            elif len(b) == 1:
                b = b * len(a)
            else:
                I.raise_(ValueError, "operands could not be broadcast together")
        return [f(x, y) for x, y in zip(a, b)]

    def binop(self, I, op, o, rev):
        return NpArr(self._ew(I, o, (lambda x, y: I.binop(op, y, x)) if rev else (lambda x, y: I.binop(op, x, y))))

    def eq(self, I, o):
        return NpArr(self._ew(I, o, lambda x, y: I.eq(x, y)))

    def order(self, I, t, o, rev):
        return NpArr(self._ew(I, o, (lambda x, y: I.compare(t(), y, x)) if rev else (lambda x, y: I.compare(t(), x, y))))

    def m_abs(self, I):
        return NpArr([models.b_abs(I, [x], {}) for x in self.items])

    def m_all(self, I, *a):
        return conj(self.items)

    def m_any(self, I, *a):
        return disj(self.items)

    def truth(self, I):
        if len(self.items) == 1:
            return I.truth(self.items[0])
        I.raise_(ValueError, "truth value of an array is ambiguous")


def elements(I, v):
    if isinstance(v, NpArr):
        return v
    if isinstance(v, (PList, tuple)):
        xs = I.to_list(v)
        if all(is_num(x) for x in xs):
            return NpArr(xs)
        if all(isinstance(x, str) for x in xs) and xs:
            I.raise_(TypeError, "ufunc not supported for the input types")
        raise Unsupported("array of non-numbers")
    if is_num(v):
        return NpArr([v])
    if v is None or isinstance(v, str):
        I.raise_(TypeError, "ufunc not supported for the input types")
    raise Unsupported("numpy array of unknown content")


def ab(t):
    return z3.If(t >= 0, t, -t)


def close(I, a, k):
    rtol = k.get("rtol", a[2] if len(a) > 2 else 1e-5)
    atol = k.get("atol", a[3] if len(a) > 3 else 1e-8)
    x, y = elements(I, a[0]), elements(I, a[1])
    return x._ew(I, y, lambda p, q: mk("bool", ab(real_term(p) - real_term(q)) <= real_term(atol) + real_term(rtol) * ab(real_term(q))))


@builtin(np.allclose)
def np_allclose(I, a, k):
    return conj(close(I, a, k))


@builtin(np.isclose)
def np_isclose(I, a, k):
    r = close(I, a, k)
    return r[0] if is_num(a[0]) and is_num(a[1]) else NpArr(r)


@builtin(np.array, np.asarray)
def np_array(I, a, k):
    if isinstance(a[0], ModelObj) and np.ndarray in a[0].pytypes:
        return a[0]
    return elements(I, a[0])


@builtin(np.abs, np.fabs)
def np_abs(I, a, k):
    return models.b_abs(I, a, k)


@builtin(np.array_equal)
def np_array_equal(I, a, k):
    x, y = elements(I, a[0]), elements(I, a[1])
    return conj([I.eq(p, q) for p, q in zip(x.items, y.items)]) if len(x.items) == len(y.items) else False


@builtin(np.all)
def np_all(I, a, k):
    return conj(elements(I, a[0]).items)


@builtin(np.prod)
def np_prod(I, a, k):
    import ast
    r = 1
    for x in I.to_list(a[0]):
        r = I.binop(ast.Mult(), r, x)
    return r


def method(I, o, name):
    if isinstance(o, np.dtype):
        v = getattr(o, name, None)
        if v is None:
            I.raise_(AttributeError, name)
        return models.Model(lambda I, a, k: models.native(I, v, a, k), "dtype." + name) if callable(v) and not isinstance(v, type) else v
    raise Unsupported(f"numpy attribute {name}")
