"""Assumed contracts of the Python builtins and standard library used by the verified code."""
import builtins, collections, contextlib, datetime, functools, hashlib, importlib, inspect, itertools, json
import logging, math, operator, os, re, sys, threading, time, types, warnings, copy, shutil
import z3
from .core import *
from .core import V
from . import strs
from .interp import (Interp, MISSING, PRIMS, GenVal, GenExp, ListIter, Poison, SuperVal, CtxGen, in_repo)

B = {}          # live callable -> handler(I, args, kwargs)


def builtin(*fs):
    def deco(h):
        for f in fs:
            B[f] = h
        return h
    return deco


# ---------------------------------------------------------------------------------------------
# host conversion
# ---------------------------------------------------------------------------------------------
class NotHost(Exception):
    pass


def host(I, v):
    """host value of a fully concrete interpreted value"""
    if isinstance(v, PRIMS):
        return v
    if isinstance(v, tuple):
        return tuple(host(I, x) for x in v)
    if type(v).__name__ in ("AbsPDict", "AbsPList"):
        raise NotHost()
    if isinstance(v, PList):
        return [host(I, x) for x in v.items]
    if isinstance(v, PSet):
        return {host(I, x) for x in v.items}
    if isinstance(v, PDict):
        if v.nsym:
            raise NotHost()
        return {k: host(I, x) for k, x in v.d.items()}
    if isinstance(v, (Sym, Obj, ModelObj, Func, Bound, Model, SymBytes, GenVal, GenExp, Poison, SuperVal, CtxGen)):
        raise NotHost()
    return v


def native(I, f, args, kwargs, name=None):
    try:
        a = [host(I, x) for x in args]
        k = {n: host(I, x) for n, x in kwargs.items()}
    except NotHost:
        raise Unsupported(f"{name or getattr(f, '__qualname__', f)} of symbolic arguments")
    try:
        return I.lift(f(*a, **k))
    except Unsupported:
        raise
    except Exception as e:
        I.raise_(type(e), *[x if isinstance(x, PRIMS) else str(x) for x in e.args])


NATIVE_MODULES = ("math", "posixpath", "genericpath", "operator", "string", "textwrap", "fnmatch", "datetime", "re",
                  "_operator", "calendar", "numbers", "base64", "binascii", "urllib.parse", "platform", "getpass", "inspect")


# ---------------------------------------------------------------------------------------------
# dictionary views
# ---------------------------------------------------------------------------------------------
class DictView(ModelObj):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind
        self.pytypes = ({"keys": collections.abc.KeysView, "values": collections.abc.ValuesView,
                         "items": collections.abc.ItemsView}[kind],)

    def el(self, k):
        kk = k.v if isinstance(k, SymKey) else k
        return kk if self.kind == "keys" else self.d.d[k] if self.kind == "values" else (kk, self.d.d[k])

    def iterate(self, I, cb):
        n = len(self.d.d)
        for k in list(self.d.d):
            if len(self.d.d) != n:
                I.raise_(RuntimeError, "dictionary changed size during iteration")
            if k not in self.d.d:
                I.raise_(RuntimeError, "dictionary keys changed during iteration")
            cb(self.el(k))
        if len(self.d.d) != n:
            I.raise_(RuntimeError, "dictionary changed size during iteration")

    def to_list(self, I):
        return [self.el(k) for k in self.d.d]

    def contains(self, I, x):
        if self.kind == "keys":
            return I.contains(self.d, x)
        return disj([I.eq(self.el(k), x) for k in self.d.d])

    def length(self, I):
        return len(self.d.d)

    def truth(self, I):
        return len(self.d.d) > 0

    def binop(self, I, op, o, rev):
        a, b = PSet(self.to_list(I)), PSet(I.to_list(o))
        return I.binop(op, b, a) if rev else I.binop(op, a, b)

    def order(self, I, t, o, rev):
        from . import ops
        a, b = PSet(self.to_list(I)), PSet(I.to_list(o))
        import ast
        return ops.order(I, t(), b, a) if rev else ops.order(I, t(), a, b)

    def eq(self, I, o):
        if isinstance(o, (DictView, PSet)):
            return I.eq(PSet(self.to_list(I)), PSet(I.to_list(o)))
        return False


def dict_method(I, d, name, owner=None):
    def m_get(I, a, k):
        return I.dict_get(d, a[0], a[1] if len(a) > 1 else k.get("default"))

    def m_pop(I, a, k):
        x = I.dict_find(d, a[0])
        if x is MISSING:
            if len(a) > 1:
                return a[1]
            if "default" in k:
                return k["default"]
            I.raise_(KeyError, a[0])
        I.note(("dict", I.oid(d)), d)
        if isinstance(x, SymKey):
            d.nsym -= 1
        return d.d.pop(x)

    def m_popitem(I, a, k):
        last = k.get("last", a[0] if a else True)
        if not d.d:
            I.raise_(KeyError, "dictionary is empty")
        x = list(d.d)[-1 if last else 0]
        I.note(("dict", I.oid(d)), d)
        if isinstance(x, SymKey):
            d.nsym -= 1
        return (x.v if isinstance(x, SymKey) else x, d.d.pop(x))

    def m_setdefault(I, a, k):
        x = I.dict_find(d, a[0])
        if x is MISSING:
            v = a[1] if len(a) > 1 else None
            I.dict_set(d, a[0], v)
            return v
        return d.d[x]

    def m_clear(I, a, k):
        I.note(("dict", I.oid(d)), d)
        d.d.clear()
        d.nsym = 0

    def m_copy(I, a, k):
        r = I.pdict()
        r.d = dict(d.d)
        r.nsym = d.nsym
        r.pytype, r.default_factory = d.pytype, d.default_factory
        return r

    def m_move_to_end(I, a, k):
        x = I.dict_find(d, a[0])
        if x is MISSING:
            I.raise_(KeyError, a[0])
        last = k.get("last", a[1] if len(a) > 1 else True)
        v = d.d.pop(x)
        if last:
            d.d[x] = v
        else:
            rest = dict(d.d)
            d.d.clear()
            d.d[x] = v
            d.d.update(rest)
        I.note(("dict", I.oid(d)), d)

    simple = {
        "get": m_get, "pop": m_pop, "popitem": m_popitem, "setdefault": m_setdefault, "clear": m_clear, "copy": m_copy,
        "move_to_end": m_move_to_end,
        "keys": lambda I, a, k: DictView(d, "keys"), "values": lambda I, a, k: DictView(d, "values"),
        "items": lambda I, a, k: DictView(d, "items"),
        "update": lambda I, a, k: I.dict_update(d, a, k),
        "__getitem__": lambda I, a, k: I.getitem(d, a[0]),
        "__setitem__": lambda I, a, k: I.dict_set(d, a[0], a[1]),
        "__contains__": lambda I, a, k: I.contains(d, a[0]),
        "__len__": lambda I, a, k: b_len(I, [d]),
        "__iter__": lambda I, a, k: ListIter(I.to_list(d)),
    }
    if getattr(d, "abs", None) is not None and name in ("keys", "values", "items"):
        return Model(lambda I, a, k: d.abs.view(I, name), "dict." + name)
    f = simple.get(name)
    return Model(f, "dict." + name) if f else None


def list_method(I, l, name):
    def mut(I):
        I.note(("list", I.oid(l)), l)

    def append(I, a, k):
        I.list_append(l, a[0])

    def extend(I, a, k):
        mut(I)
        l.items.extend(I.to_list(a[0]))

    def insert(I, a, k):
        mut(I)
        l.items.insert(a[0], a[1])

    def pop(I, a, k):
        mut(I)
        if not l.items:
            I.raise_(IndexError, "pop from empty list")
        i = a[0] if a else -1
        if isinstance(i, Sym):
            raise Unsupported("pop at symbolic index")
        try:
            return l.items.pop(i)
        except IndexError:
            I.raise_(IndexError, "pop index out of range")

    def clear(I, a, k):
        mut(I)
        l.items.clear()

    def reverse(I, a, k):
        mut(I)
        l.items.reverse()

    def remove(I, a, k):
        mut(I)
        for i, x in enumerate(l.items):
            if x is a[0] or I.decide(I.eq(x, a[0])):
                del l.items[i]
                return
        I.raise_(ValueError, "list.remove(x): x not in list")

    def index(I, a, k):
        for i, x in enumerate(l.items):
            if x is a[0] or I.decide(I.eq(x, a[0])):
                return i
        I.raise_(ValueError, "not in list")

    def sort(I, a, k):
        mut(I)
        l.items[:] = b_sorted(I, [l], k).items

    def count(I, a, k):
        return sum(1 for x in l.items if I.decide(I.eq(x, a[0])))

    def popleft(I, a, k):
        mut(I)
        if not l.items:
            I.raise_(IndexError, "pop from an empty deque")
        return l.items.pop(0)

    def appendleft(I, a, k):
        mut(I)
        l.items.insert(0, a[0])

    if isinstance(l, PDeque):
        f = {"append": append, "extend": extend, "clear": clear, "reverse": reverse, "remove": remove, "index": index, "count": count,
             "popleft": popleft, "appendleft": appendleft, "pop": lambda I, a, k: pop(I, (), {}), "__len__": lambda I, a, k: len(l.items)}.get(name)
        return Model(f, "deque." + name) if f else None
    f = {"append": append, "extend": extend, "insert": insert, "pop": pop, "clear": clear, "reverse": reverse,
         "remove": remove, "index": index, "sort": sort, "count": count,
         "copy": lambda I, a, k: I.plist(l.items),
         "__len__": lambda I, a, k: len(l.items)}.get(name)
    return Model(f, "list." + name) if f else None


def set_method(I, s, name):
    def has(x, t=None):
        return I.run.branch(I.truth(I.contains(t or s, x)))

    def add(I, a, k):
        if not has(a[0]):
            s.items.append(a[0])
        I.note(("list", I.oid(s)), s)

    def discard(I, a, k):
        for i, x in enumerate(s.items):
            if I.decide(I.eq(x, a[0])):
                del s.items[i]
                I.note(("list", I.oid(s)), s)
                return True
        return False

    def remove(I, a, k):
        if not discard(I, a, k):
            I.raise_(KeyError, a[0])

    def update(I, a, k):
        for it in a:
            for x in I.to_list(it):
                add(I, [x], {})

    import ast
    f = {"add": add, "discard": lambda I, a, k: (discard(I, a, k), None)[1], "remove": remove, "update": update,
         "clear": lambda I, a, k: s.items.clear(), "copy": lambda I, a, k: PSet(s.items),
         "union": lambda I, a, k: functools.reduce(lambda p, q: I.binop(ast.BitOr(), p, PSet(I.to_list(q))), a, s),
         "intersection": lambda I, a, k: functools.reduce(lambda p, q: I.binop(ast.BitAnd(), p, PSet(I.to_list(q))), a, s),
         "difference": lambda I, a, k: functools.reduce(lambda p, q: I.binop(ast.Sub(), p, PSet(I.to_list(q))), a, s),
         "issubset": lambda I, a, k: conj([I.contains(a[0], x) for x in s.items]),
         "issuperset": lambda I, a, k: conj([I.contains(s, x) for x in I.to_list(a[0])]),
         "isdisjoint": lambda I, a, k: neg(disj([I.contains(a[0], x) for x in s.items])),
         "__len__": lambda I, a, k: len(s.items)}.get(name)
    return Model(f, "set." + name) if f else None


def tuple_method(I, t, name):
    if name == "index":
        return Model(lambda I, a, k: list_method(I, PList(t), "index").fn(I, a, k), "tuple.index")
    if name == "count":
        return Model(lambda I, a, k: sum(1 for x in t if I.decide(I.eq(x, a[0]))), "tuple.count")
    return None


# ---------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------
@builtin(len)
def b_len(I, a, k=None):
    v = a[0]
    if isinstance(v, (str, bytes, tuple, range)):
        return len(v)
    if isinstance(v, (PList, PSet)):
        return len(v.items)
    if isinstance(v, PDict) and getattr(v, "abs", None) is not None:
        return v.abs.view(I, "keys").length(I)
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, Sym) and v.kind == "str":
        return mk("int", z3.Length(strs.term(I, v)))
    if isinstance(v, SymBytes):
        from . import bytesm
        return bytesm.length(I, v)
    if isinstance(v, ModelObj):
        if hasattr(v, "length"):
            return v.length(I)
        raise Unsupported(f"len of {type(v).__name__}")
    if isinstance(v, Obj):
        m = I.class_lookup(v.cls, "__len__")
        if isinstance(m, types.FunctionType):
            return I.call(m, [v])
        if v.dictpart is not None:
            return b_len(I, [v.dictpart])
        if v.tup is not None:
            return len(v.tup)
        I.raise_(TypeError, "object has no len()")
    if v is None or isinstance(v, (int, float)) or (isinstance(v, Sym) and v.kind in ("int", "real", "bool")):
        I.raise_(TypeError, "object has no len()")
    raise Unsupported(f"len of {type(v).__name__}")


@builtin(isinstance)
def b_isinstance(I, a, k):
    c = a[1]
    if isinstance(c, PList):
        c = tuple(c.items)
    return I.isinstance_(a[0], c)


@builtin(issubclass)
def b_issubclass(I, a, k):
    return issubclass(a[0], a[1])


@builtin(type)
def b_type(I, a, k):
    if len(a) != 1:
        raise Unsupported("type() with 3 arguments")
    if isinstance(a[0], Sym) and a[0].kind == "opaque" and a[0].pytype is None:
        raise Unsupported("type of opaque value")
    return I.type_of(a[0])


@builtin(getattr)
def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with symbolic name")
    return I.getattr(a[0], a[1], *(a[2:3]))


@builtin(hasattr)
def b_hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if issubclass(e.value.cls, AttributeError):
            return False
        raise


@builtin(setattr)
def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


@builtin(callable)
def b_callable(I, a, k):
    v = a[0]
    if isinstance(v, (Func, Bound, Model, type, types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return True
    if isinstance(v, Obj):
        return I.class_lookup(v.cls, "__call__") is not MISSING
    if isinstance(v, ModelObj):
        return hasattr(v, "call")
    if isinstance(v, Sym):
        if v.kind == "opaque" and v.pytype is None:
            if v.meta and "callable" in v.meta:
                return v.meta["callable"]
            raise Unsupported("callable of opaque value")
        return False
    return callable(v)


@builtin(print)
def b_print(I, a, k):
    return None


@builtin(id)
def b_id(I, a, k):
    v = a[0]
    if isinstance(v, (Obj, PList, PDict)):
        return I.oid(v) * 16
    raise Unsupported("id")


@builtin(repr)
def b_repr(I, a, k):
    try:
        return repr(host(I, a[0]))
    except NotHost:
        v = a[0]
        if isinstance(v, Obj) and isinstance(v.cls, type):
            m = I.class_lookup(v.cls, "__repr__")
            if isinstance(m, types.FunctionType) and in_repo(m.__code__.co_filename):
                return I.call(m, [v])
        return strs.opaque_str(I, "repr")


@builtin(str)
def b_str(I, a, k):
    if not a:
        return ""
    return I.to_str(a[0])


@builtin(int)
def b_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if len(a) > 1 or k:
        return native(I, int, a, k)
    if isinstance(v, Sym):
        if v.kind == "int":
            return v
        if v.kind == "bool":
            return mk("int", z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if v.kind == "real":
            return mk("int", z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.kind == "str":
            return strs.to_int(I, v)
        raise Unsupported("int of opaque")
    if v is None or isinstance(v, (PList, PDict, PSet, tuple, Obj)):
        I.raise_(TypeError, "int() argument must be a string or a number")
    if isinstance(v, ModelObj) and hasattr(v, "to_int"):
        return v.to_int(I)
    return native(I, int, a, k)


@builtin(float)
def b_float(I, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, Sym):
        if v.kind in ("int", "bool"):
            return mk("real", real_term(v))
        if v.kind == "real":
            return v
        raise Unsupported("float of symbolic text")
    if v is None or isinstance(v, (PList, PDict, PSet, tuple, Obj)):
        I.raise_(TypeError, "float() argument must be a string or a real number")
    return native(I, float, a, k)


@builtin(bool)
def b_bool(I, a, k):
    if not a:
        return False
    t = I.truth(a[0])
    return t if isinstance(t, bool) else mk("bool", t)


@builtin(abs)
def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.kind in ("int", "real"):
        return mk(v.kind, z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, ModelObj) and hasattr(v, "m_abs"):
        return v.m_abs(I)
    if isinstance(v, Sym):
        raise Unsupported("abs")
    I.raise_(TypeError, "bad operand type for abs()")


@builtin(round)
def b_round(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    if len(a) == 1 and isinstance(a[0], Sym):
        v = a[0]
        if v.kind == "int":
            return v
        f = z3.ToInt(v.t)
        d = v.t - z3.ToReal(f)
        half = z3.Q(1, 2)
        return mk("int", z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    raise Unsupported("round")


@builtin(divmod)
def b_divmod(I, a, k):
    import ast
    return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))


@builtin(pow)
def b_pow(I, a, k):
    import ast
    return I.binop(ast.Pow(), a[0], a[1])


@builtin(list)
def b_list(I, a, k):
    if a and isinstance(a[0], ModelObj) and hasattr(a[0], "as_list"):
        return a[0].as_list(I)
    return I.plist(I.to_list(a[0]) if a else [])


@builtin(tuple)
def b_tuple(I, a, k):
    return tuple(I.to_list(a[0])) if a else ()


@builtin(set, frozenset)
def b_set(I, a, k):
    s = PSet()
    if a:
        for x in I.to_list(a[0]):
            if not I.run.branch(I.truth(I.contains(s, x))):
                s.items.append(x)
    return s


@builtin(dict)
def b_dict(I, a, k):
    d = I.pdict()
    if a and isinstance(a[0], ModelObj) and hasattr(a[0], "copy_dict"):
        d = a[0].copy_dict(I)
        if k:
            raise Unsupported("dict(model, **kw)")
        return d
    I.dict_update(d, a, k)
    return d


@builtin(collections.OrderedDict)
def b_odict(I, a, k):
    d = b_dict(I, a, k)
    d.pytype = collections.OrderedDict
    return d


@builtin(collections.defaultdict)
def b_ddict(I, a, k):
    d = b_dict(I, a[1:], k)
    d.pytype = collections.defaultdict
    d.default_factory = a[0] if a else None
    return d


@builtin(collections.deque)
def b_deque(I, a, k):
    if len(a) > 1 or k:
        raise Unsupported("a deque with a maximal length")
    r = PDeque(I.to_list(a[0]) if a else ())
    I.oid(r)
    return r


@builtin(range)
def b_range(I, a, k):
    if any(isinstance(x, Sym) for x in a):
        raise Unsupported("range with symbolic bound")
    return native(I, range, a, k)


@builtin(sum)
def b_sum(I, a, k):
    import ast
    v = a[0]
    if isinstance(v, ModelObj) and hasattr(v, "m_sum"):
        r = v.m_sum(I)
        st = a[1] if len(a) > 1 else 0
        return r if st == 0 else I.binop(ast.Add(), st, r)
    if isinstance(v, GenExp):
        h = I.genexp_abstract(v)
        if h is not None:
            return h.m_sum(I)
    acc = [a[1] if len(a) > 1 else k.get("start", 0)]

    def cb(x):
        acc[0] = I.binop(ast.Add(), acc[0], x)
    I.gather(v, cb)
    return acc[0]


def minmax(I, a, k, is_max):
    import ast
    if len(a) == 1:
        v = a[0]
        if isinstance(v, ModelObj) and hasattr(v, "m_minmax"):
            return v.m_minmax(I, is_max, k)
        if isinstance(v, GenExp):
            h = I.genexp_abstract(v)
            if h is not None and hasattr(h, "m_minmax"):
                return h.m_minmax(I, is_max, k)
        items = I.to_list(v)
    else:
        items = list(a)
    if not items:
        if "default" in k:
            return k["default"]
        I.raise_(ValueError, "arg is an empty sequence")
    key = k.get("key")
    best = items[0]
    kb = I.call(key, [best]) if key is not None else best
    for x in items[1:]:
        kx = I.call(key, [x]) if key is not None else x
        if I.decide(I.compare(ast.Gt() if is_max else ast.Lt(), kx, kb)):
            best, kb = x, kx
    return best


@builtin(max)
def b_max(I, a, k):
    return minmax(I, a, k, True)


@builtin(min)
def b_min(I, a, k):
    return minmax(I, a, k, False)


class _Stop(Exception):
    pass


def anyall(I, v, is_and):
    """elements that are plain booleans are joined into one term (see Interp.e_BoolOp)"""
    run = I.run
    key = id(v.node) if isinstance(v, GenExp) else None
    merge = key not in run.ex.nomerge
    acc = []
    w = [run.nwrites]
    join = conj if is_and else disj

    def split():
        run.ex.nomerge.add(key)
        raise Restart()

    def cb(x):
        if acc and run.nwrites != w[0]:
            split()
        w[0] = run.nwrites
        if merge and isinstance(x, Sym) and x.kind == "bool":
            acc.append(x)
            return
        if x is True or x is False:
            if x is not is_and:
                raise _Stop()
            return
        if acc:
            t = I.decide(join(acc))
            if t is not is_and:
                raise _Stop()
            acc.clear()
        if I.decide(x) is not is_and:
            raise _Stop()
    absent = key in run.ex.absloops
    try:
        if absent:
            merge = False
            I.iterate(v, cb)
        else:
            I.gather(v, cb)
    except _Stop:
        return not is_and
    except NeedWhole:
        # over a sequence of unbounded length nothing is joined
        if absent or key is None:
            raise
        run.ex.absloops.add(key)
        raise Restart()
    except (PyExc, Unsupported):
        if acc and key is not None:
            split()
        raise
    return join(acc) if acc else is_and


@builtin(any)
def b_any(I, a, k):
    return anyall(I, a[0], False)


@builtin(all)
def b_all(I, a, k):
    return anyall(I, a[0], True)


@builtin(sorted)
def b_sorted(I, a, k):
    import ast
    v = a[0]
    if isinstance(v, ModelObj) and hasattr(v, "m_sorted"):
        return v.m_sorted(I, k)
    items = I.to_list(v)
    key = k.get("key")
    rev = k.get("reverse", False)
    ks = [I.call(key, [x]) if key is not None else x for x in items]
    try:
        hk = [host(I, x) for x in ks]
        order = sorted(range(len(items)), key=lambda i: hk[i], reverse=rev)
        return I.plist([items[i] for i in order])
    except NotHost:
        pass
    except TypeError as e:
        I.raise_(TypeError, str(e))
    out = []
    for i in range(len(items)):
        j = len(out)
        while j > 0:
            # stable insertion
            c = I.compare(ast.Lt(), ks[out[j - 1]], ks[i]) if rev else I.compare(ast.Lt(), ks[i], ks[out[j - 1]])
            if not I.decide(c):
                break
            j -= 1
        out.insert(j, i)
    return I.plist([items[i] for i in out])


@builtin(reversed)
def b_reversed(I, a, k):
    return I.plist(list(reversed(I.to_list(a[0]))))


@builtin(enumerate)
def b_enumerate(I, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    x = I.iterator(a[0])
    if isinstance(x, ModelObj) and hasattr(x, "m_enumerate"):
        return x.m_enumerate(I, st)
    return I.plist([(i + st, y) for i, y in enumerate(I.to_list(x))])


@builtin(zip)
def b_zip(I, a, k):
    ls = [I.to_list(x) for x in a]
    if k.get("strict") and len({len(x) for x in ls}) > 1:
        I.raise_(ValueError, "zip() arguments have different lengths")
    return I.plist([tuple(t) for t in zip(*ls)])


@builtin(map)
def b_map(I, a, k):
    ls = [I.to_list(x) for x in a[1:]]
    return I.plist([I.call(a[0], list(t)) for t in zip(*ls)])


@builtin(filter)
def b_filter(I, a, k):
    return I.plist([x for x in I.to_list(a[1]) if I.decide(x if a[0] is None else I.call(a[0], [x]))])


@builtin(iter)
def b_iter(I, a, k):
    if isinstance(a[0], (GenVal, GenExp, ListIter)):
        return a[0]
    if isinstance(a[0], ModelObj) and hasattr(a[0], "m_enumerate"):
        return a[0].once()
    return ListIter(I.to_list(a[0]))


@builtin(next)
def b_next(I, a, k):
    it = a[0]
    if isinstance(it, ListIter):
        if it.pos < len(it.items):
            it.pos += 1
            return it.items[it.pos - 1]
        if len(a) > 1:
            return a[1]
        I.raise_(StopIteration)
    if isinstance(it, (GenVal, GenExp)):
        got = []

        class Done(Exception):
            pass

        def cb(x):
            got.append(x)
            raise Done()
        if isinstance(it, GenVal) and it.done:
            raise Unsupported("second next() of a generator")
        try:
            I.iterate(it, cb)
        except Done:
            if isinstance(it, GenVal):
                it.done = True
            return got[0]
        if len(a) > 1:
            return a[1]
        I.raise_(StopIteration)
    raise Unsupported("next")


@builtin(super)
def b_super(I, a, k):
    return SuperVal(a[0], a[1])


@builtin(object)
def b_object(I, a, k):
    return I.obj(object)


@builtin(bytes, bytearray)
def b_bytes(I, a, k):
    if not a:
        return b""
    if isinstance(a[0], SymBytes):
        return a[0]
    return native(I, bytes, a, k)


@builtin(vars)
def b_vars(I, a, k):
    if isinstance(a[0], Obj):
        return I.pdict(list(a[0].fields.items()))
    raise Unsupported("vars of something else")


@builtin(format)
def b_format(I, a, k):
    return native(I, format, a, k) if all(isinstance(x, PRIMS) for x in a) else strs.opaque_str(I, "fmt")


@builtin(open)
def b_open(I, a, k):
    return I.ctx.open(I, a, k)


for _f in (chr, ord, hex, bin, hash, slice, complex):
    B[_f] = lambda I, a, k, f=_f: native(I, f, a, k)


# ---------------------------------------------------------------------------------------------
# copy, functools, itertools
# ---------------------------------------------------------------------------------------------
def deep(I, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        return tuple(deep(I, x, memo) for x in v)
    if isinstance(v, PList):
        r = memo[id(v)] = b_deque(I, (), {}) if isinstance(v, PDeque) else I.plist()
        r.items.extend(deep(I, x, memo) for x in v.items)
        return r
    if isinstance(v, PDict):
        r = memo[id(v)] = I.pdict()
        r.pytype, r.default_factory, r.nsym = v.pytype, v.default_factory, v.nsym
        r.d = {k: deep(I, x, memo) for k, x in v.d.items()}
        return r
    if isinstance(v, PSet):
        return PSet(v.items)
    if isinstance(v, Obj):
        r = memo[id(v)] = I.obj(v.cls)
        r.fields = {k: deep(I, x, memo) for k, x in v.fields.items()}
        if v.dictpart is not None:
            r.dictpart = deep(I, v.dictpart, memo)
        r.tup = deep(I, v.tup, memo) if v.tup is not None else None
        return r
    if isinstance(v, ModelObj):
        if hasattr(v, "deepcopy"):
            return v.deepcopy(I)
        raise Unsupported(f"deepcopy of {type(v).__name__}")
    return v


@builtin(copy.deepcopy)
def b_deepcopy(I, a, k):
    return deep(I, a[0], {})


@builtin(copy.copy)
def b_copy(I, a, k):
    v = a[0]
    if isinstance(v, PDeque):
        return b_deque(I, [v], {})
    if isinstance(v, PList):
        return I.plist(v.items)
    if isinstance(v, PDict):
        return dict_method(I, v, "copy").fn(I, [], {})
    if isinstance(v, (tuple, *PRIMS)) or isinstance(v, Sym):
        return v
    if isinstance(v, Obj):
        r = I.obj(v.cls)
        r.fields = dict(v.fields)
        r.dictpart = dict_method(I, v.dictpart, "copy").fn(I, [], {}) if v.dictpart is not None else None
        r.tup = v.tup
        return r
    raise Unsupported("copy.copy")


@builtin(functools.reduce)
def b_reduce(I, a, k):
    items = I.to_list(a[1])
    if len(a) > 2:
        acc = a[2]
    elif items:
        acc = items.pop(0)
    else:
        I.raise_(TypeError, "reduce() of empty iterable")
    for x in items:
        acc = I.call(a[0], [acc, x])
    return acc


class PartialModel(ModelObj):
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def call(self, I, args, kwargs):
        kw = dict(self.k)
        kw.update(kwargs)
        return I.call(self.f, list(self.a) + list(args), kw)

    def f_func(self, I):
        return self.f


@builtin(functools.partial)
def b_partial(I, a, k):
    return PartialModel(a[0], a[1:], k)


@builtin(functools.wraps)
def b_wraps(I, a, k):
    return Model(lambda I, b, kk: b[0], "wraps")


@builtin(itertools.chain)
def b_chain(I, a, k):
    return I.plist([x for l in a for x in I.to_list(l)])


@builtin(itertools.product)
def b_product(I, a, k):
    return I.plist([tuple(t) for t in itertools.product(*[I.to_list(x) for x in a])])


@builtin(collections.namedtuple)
def b_namedtuple(I, a, k):
    return native(I, collections.namedtuple, a, k)


# operator functions on symbolic values
def _op(f, node, cmp=False):
    import ast
    n = getattr(ast, node)()
    B[f] = (lambda I, a, k: I.compare(n, a[0], a[1])) if cmp else (lambda I, a, k: I.binop(n, a[0], a[1]))


for _n, _a in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod")):
    _op(getattr(operator, _n), _a)
for _n, _a in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
    _op(getattr(operator, _n), _a, True)


@builtin(operator.itemgetter)
def b_itemgetter(I, a, k):
    return Model(lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a), "itemgetter")


@builtin(operator.attrgetter)
def b_attrgetter(I, a, k):
    return Model(lambda I, b, kk: I.getattr(b[0], a[0]), "attrgetter")


@builtin(math.floor)
def b_floor(I, a, k):
    if isinstance(a[0], Sym):
        return mk("int", z3.ToInt(real_term(a[0]))) if a[0].kind == "real" else a[0]
    return native(I, math.floor, a, k)


@builtin(math.ceil)
def b_ceil(I, a, k):
    if isinstance(a[0], Sym):
        return mk("int", -z3.ToInt(-real_term(a[0]))) if a[0].kind == "real" else a[0]
    return native(I, math.ceil, a, k)


@builtin(math.isclose)
def b_misclose(I, a, k):
    if not any(isinstance(x, Sym) for x in a):
        return native(I, math.isclose, a, k)
    rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
    x, y = real_term(a[0]), real_term(a[1])
    ab = lambda t: z3.If(t >= 0, t, -t)
    m = z3.If(ab(x) >= ab(y), ab(x), ab(y))
    return mk("bool", z3.Or(ab(x - y) <= real_term(rt) * m, ab(x - y) <= real_term(at)))


@builtin(math.fmod)
def b_fmod(I, a, k):
    if not any(isinstance(x, Sym) for x in a):
        return native(I, math.fmod, a, k)
    import ast
    x, y = a
    if isinstance(y, Sym) or y <= 0:
        raise Unsupported("fmod")
    if I.run.branch(real_term(x) >= 0):
        return I.binop(ast.Mod(), x, float(y))
    r = I.binop(ast.Mod(), I.binop(ast.Mult(), x, -1.0), float(y))
    return I.binop(ast.Mult(), r, -1.0)


@builtin(inspect.isclass)
def b_isclass(I, a, k):
    return isinstance(a[0], type)


@builtin(inspect.isabstract)
def b_isabstract(I, a, k):
    return inspect.isabstract(a[0])


@builtin(inspect.signature)
def b_signature(I, a, k):
    f = a[0]
    if isinstance(f, Bound):
        f = f.fn
    if isinstance(f, (types.FunctionType, type)):
        return inspect.signature(f)
    raise Unsupported("signature")


# ---------------------------------------------------------------------------------------------
# environment, time, logging
# ---------------------------------------------------------------------------------------------
@builtin(logging.getLogger)
def b_getlogger(I, a, k):
    return logging.getLogger("pyvc.x")


@builtin(warnings.warn)
def b_warn(I, a, k):
    return None


@builtin(time.time, time.monotonic, time.perf_counter)
def b_time(I, a, k):
    return Sym("real", clock(I, "time"))


def clock(I, name):
    """a reading of the clock; with S.clock_increases each is later than the ones before, and within 100 s of the first"""
    t = I.run.fresh(z3.RealSort(), name)
    g = I.run.ghost
    if g.get("clock") is not None:
        I.run.assume(z3.And(t > g["clock"], t < 100))
        g["clock"] = t
    return t


@builtin(time.sleep)
def b_sleep(I, a, k):
    return None


class NowModel(ModelObj):
    """a point in time"""
    pytypes = (datetime.datetime,)

    def __init__(self, I):
        self.t = clock(I, "now")

    def m_timestamp(self, I):
        return Sym("real", self.t)

    def to_str(self, I):
        return Sym("str", None, (("v", V.VReal(self.t)),))

    def m_isoformat(self, I, *a):
        return self.to_str(I)

    def m_strftime(self, I, *a):
        return strs.opaque_str(I, "time")

    def toV(self, I):
        return V.VReal(self.t)


@builtin(os.getenv)
def b_getenv(I, a, k):
    return I.call(I.getattr(I.lift(os.environ), "get"), a, k)


@builtin(os.getpid, threading.get_ident)
def b_getpid(I, a, k):
    return Sym("int", I.run.fresh(z3.IntSort(), "pid"))


@builtin(os.path.join)
def b_join(I, a, k):
    if all(isinstance(x, str) for x in a):
        return os.path.join(*a)
    r = a[0]
    for x in a[1:]:
        if x is None or isinstance(x, (int, float)):
            I.raise_(TypeError, "join() argument must be str")
        if I.decide(strs.startswith(I, x, "/")):
            r = x
        elif I.decide(strs.endswith(I, r, "/")) or (isinstance(r, str) and r == ""):
            r = strs.concat(I, [r, x])
        else:
            r = strs.concat(I, [r, "/", x])
    return r


# ---------------------------------------------------------------------------------------------
# json, hashes
# ---------------------------------------------------------------------------------------------
class JsonText(Sym):
    pass


@builtin(json.dumps)
def b_dumps(I, a, k):
    try:
        h = host(I, a[0])
        return json.dumps(h, **{n: host(I, x) for n, x in k.items() if n != "cls" and n != "default"}) \
            if not ("cls" in k or "default" in k) else _dumps_sym(I, a, k)
    except NotHost:
        return _dumps_sym(I, a, k)
    except TypeError as e:
        return _dumps_sym(I, a, k)


def _dumps_sym(I, a, k):
    v = a[0]
    enc = k.get("cls") or k.get("default")
    t = V.VJson(jsonable(I, v, enc, k.get("sort_keys", False)))
    from . import fsm
    try:
        fsm.texts(I).append((t, "json", fsm.snapshot(I, v)))
    except (Unsupported, PyExc):
        pass        # loading it again is undecided
    return Sym("str", None, (("v", t),))


def jsonable(I, v, enc, sort):
    """term of the JSON value; the serialisation is assumed injective on JSON values"""
    if isinstance(v, (PDict, )) or (isinstance(v, Obj) and v.dictpart is not None):
        d = v if isinstance(v, PDict) else v.dictpart
        ks = list(d.d)
        if all(isinstance(x, str) for x in ks):
            if sort:
                ks = sorted(ks)
            r = V.VNil
            for x in reversed(ks):
                r = V.VCons(V.VCons(V.VStr(z3.StringVal(x)), jsonable(I, d.d[x], enc, sort)), r)
            return V.VDict(r)
        raise Unsupported("json of dictionary with symbolic keys")
    if isinstance(v, (tuple, PList)) and not isinstance(v, str):
        r = V.VNil
        for x in reversed(v if isinstance(v, tuple) else v.items):
            r = V.VCons(jsonable(I, x, enc, sort), r)
        return r
    if isinstance(v, Obj) and v.tup is not None:
        return jsonable(I, v.tup, enc, sort)
    if isinstance(v, ModelObj) and hasattr(v, "toV"):
        return v.toV(I)
    if isinstance(v, str) or isinstance(v, Sym) and v.kind == "str":
        t = I.toV(v)
        plain, literals = I.run.ghost.setdefault("json_plain", {}), I.run.ghost.setdefault("json_literals", {})
        if strs.is_plain(I, ("v", t)) and t.num_args() == 0 and t.get_id() not in plain:
            plain[t.get_id()] = t               # a plain name is no text with other characters
            for x in literals:
                I.run.assume(t != V.VStr(z3.StringVal(x)))
        elif isinstance(v, str) and v not in literals and not all(strs.plain_char(c) for c in v):
            literals[v] = True
            for p in plain.values():
                I.run.assume(p != V.VStr(z3.StringVal(v)))
        return V.VText(t)
    if v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, Sym):
        return I.toV(v)
    if enc is not None:
        if isinstance(enc, type):
            m = I.class_lookup(enc, "default")
            o = I.obj(enc)
            return jsonable(I, I.call(m, [o, v]), enc, sort)
        return jsonable(I, I.call(enc, [v]), enc, sort)
    I.raise_(TypeError, "Object is not JSON serializable")


class Hash(ModelObj):
    def __init__(self, I, name, data=()):
        self.algo, self.data = name, list(data)

    def m_update(self, I, b):
        self.data.append(b)

    def m_hexdigest(self, I):
        if all(isinstance(b, bytes) for b in self.data):
            h = hashlib.new(self.algo)
            for b in self.data:
                h.update(b)
            return h.hexdigest()
        if I.ctx.options.get("hash_concat") is None:
            # the digest is over the concatenation: unambiguous only as a list when parts are self-delimiting
            data = self.pieces(I)
            known = data is not None and len(data) > 1 and self.plain_parts(I, data)
            if len(self.data) > 1 or known:
                t = V.VNil
                for b in reversed(data or self.data):
                    t = V.VCons(bytesV(I, b), t)
                if not known:
                    I.run.imprecise = True
                return hexdigest(I, V.VSha(t))
            if data is None or len(data) > 1:
                I.run.imprecise = True
        return hexdigest(I, V.VSha(bytesV(I, self.data[0])))

    def pieces(self, I):
        """the data as a name and JSON texts, however it was put together"""
        texts = []
        for b in self.data:
            for p in b.parts if isinstance(b, SymBytes) else [b]:
                if isinstance(p, bytes):
                    try:
                        p = p.decode()
                    except UnicodeDecodeError:
                        return None
                elif p[0] == "enc":
                    p = p[1]
                else:
                    return None
                texts.append(p)
        r = []
        for p in strs.parts_of(I, strs.concat(I, texts)):
            if not isinstance(p, str):
                r.append(SymBytes([("enc", strs.make([p]))]))
                continue
            i = 0
            if not r:
                while i < len(p) and p[i] not in '"[{ \n':
                    i += 1
                if i:
                    r.append(p[:i].encode())
            while i < len(p):
                if p[i] in " \n":
                    r.append(p[i].encode())
                    i += 1
                    continue
                try:
                    _, j = json.JSONDecoder().raw_decode(p, i)
                except ValueError:
                    return None
                r.append(p[i:j].encode())
                i = j
        return r

    def plain_parts(self, I, data):
        """one name, then JSON texts: read off the concatenation without ambiguity (a JSON text ends where its value does,
        a number where the next text begins or the data ends)"""
        def single(b, what):
            v = b.parts[0][1] if isinstance(b, SymBytes) and len(b.parts) == 1 and b.parts[0][0] == "enc" else None
            return isinstance(v, Sym) and v.parts is not None and len(v.parts) == 1 and what(v.parts[0])
        if not single(data[0], lambda p: strs.is_plain(I, p) or p[0] == "v" and p[1].decl().name() == "VJson") and not isinstance(data[0], bytes):
            return False
        b = data[0]
        if not isinstance(b, bytes) and single(b, lambda p: p[0] == "v" and p[1].decl().name() == "VJson"):
            b, first = data[1], data[:1]      # JSON texts only
        else:
            b, first = data[1], []
        if first:
            pass
        elif isinstance(b, bytes):
            if b[:1] not in b'"[{ \n':
                return False
        elif not single(b, lambda p: p[0] == "v" and p[1].decl().name() == "VJson" and p[1].arg(0).decl().name() in ("VText", "VNil", "VCons", "VDict")):
            return False
        data = first + data[1:]
        for b, after in zip(data, data[1:] + [b'"']):
            if isinstance(b, bytes):
                if b in (b" ", b"\n"):
                    continue
                try:
                    v = json.loads(b)
                except ValueError:
                    return False
                if isinstance(v, (int, float)) and not isinstance(v, bool) and not (isinstance(after, bytes) and after[:1] in b'"[{ntf \n'):
                    return False
            elif not single(b, lambda p: p[0] == "v" and p[1].decl().name() == "VJson"):
                return False
            elif p_number(b.parts[0][1].parts[0][1].arg(0)) and not (isinstance(after, bytes) and after[:1] in b'"[{ntf \n'
                                                                    or not isinstance(after, bytes) and single(after, lambda p: p[0] == "v" and p[1].decl().name() == "VJson" and not p_number(p[1].arg(0)))):
                return False
        return True

    def m_copy(self, I):
        return Hash(I, self.algo, self.data)


def p_number(t):
    return t.decl().name() not in ("VText", "VNil", "VCons", "VDict", "VNone", "VBool")


def hexdigest(I, t):
    I.run.ghost.setdefault("plain", {})[t.get_id()] = t
    return Sym("str", None, (("v", t),))


def bytesV(I, b):
    if isinstance(b, bytes):
        try:
            return I.toV(b.decode())
        except UnicodeDecodeError:
            return I.toV(b)
    if isinstance(b, SymBytes) and len(b.parts) == 1 and b.parts[0][0] == "enc":
        return I.toV(b.parts[0][1])
    if isinstance(b, SymBytes):
        r = V.VNil
        for p in reversed(b.parts):
            if isinstance(p, bytes):
                r = V.VCons(I.toV(p), r)
            elif p[0] == "blob":
                r = V.VCons(I.toV(p[1]), r)
            elif p[0] == "enc":
                r = V.VCons(I.toV(p[1]), r)
            else:
                r = V.VCons(I.toV(p[-1]), r)
        return r
    raise Unsupported("hash of non-bytes")


for _n in ("sha256", "md5", "sha1", "sha512", "sha224", "sha384", "blake2b"):
    B[getattr(hashlib, _n)] = lambda I, a, k, n=_n: Hash(I, n, a)


@builtin(hashlib.new)
def b_hnew(I, a, k):
    return Hash(I, a[0], a[1:])


# ---------------------------------------------------------------------------------------------
# locks
# ---------------------------------------------------------------------------------------------
class NoLock(ModelObj):
    """a lock in a sequential harness: counts, no effect"""
    pytypes = (type(threading.Lock()), type(threading.RLock()))
    def __init__(self, reentrant=True):
        self.n, self.reentrant = 0, reentrant

    def enter(self, I):
        self.m_acquire(I)
        return self

    def exit(self, I, e):
        self.m_release(I)
        return False

    def m_acquire(self, I, *a, **k):
        if self.n and not self.reentrant:
            I.run.check("no operation blocks itself (lock is not re-acquired by its holder)", False)
        self.n += 1
        return True

    def m_release(self, I):
        if self.n <= 0:
            I.raise_(RuntimeError, "release unlocked lock")
        self.n -= 1

    def m_locked(self, I):
        return self.n > 0

    def m___enter__(self, I):
        self.m_acquire(I)
        return True

    def m___exit__(self, I, *a):
        self.m_release(I)


class Suppress(ModelObj):
    def __init__(self, classes):
        self.classes = classes

    def enter(self, I):
        return None

    def exit(self, I, e):
        return e is not None and I.isinstance_(e, self.classes)


class Closing(ModelObj):
    def __init__(self, thing, close):
        self.thing, self.close = thing, close

    def enter(self, I):
        return self.thing

    def exit(self, I, e):
        if self.close:
            I.call(I.getattr(self.thing, "close"))
        return False


@builtin(contextlib.suppress)
def b_suppress(I, a, k):
    return Suppress(tuple(a))


@builtin(contextlib.closing)
def b_closing(I, a, k):
    return Closing(a[0], True)


@builtin(contextlib.nullcontext)
def b_nullcontext(I, a, k):
    return Closing(a[0] if a else k.get("enter_result"), False)


@builtin(threading.Lock)
def b_lock(I, a, k):
    return NoLock(False)


@builtin(threading.RLock)
def b_rlock(I, a, k):
    return NoLock(True)


class NoCond(NoLock):
    pytypes = (threading.Condition,)

    def m_wait(self, I, timeout=None):
        raise Unsupported("waiting in a sequential harness")

    def m_wait_for(self, I, predicate, timeout=None):
        r = I.call(predicate, [])
        if I.decide(I.truth(r)):
            return r
        raise Unsupported("waiting in a sequential harness")

    def m_notify(self, I, n=1):
        if not self.n:
            I.raise_(RuntimeError, "cannot notify on un-acquired lock")

    m_notify_all = m_notify


@builtin(threading.Condition)
def b_condition(I, a, k):
    return NoCond(True)


B[threading.Thread.__init__] = lambda I, a, k: None
B[threading.Thread.start] = lambda I, a, k: None         # what the thread does is verified on its own
B[threading.current_thread] = lambda I, a, k: strs.opaque_str(I, "thread")
LOCKTYPES = (type(threading.Lock()), type(threading.RLock()))


# ---------------------------------------------------------------------------------------------
# context
# ---------------------------------------------------------------------------------------------
class Ignored(ModelObj):
    """object whose methods have no effect on the verified state (logging, progress bars)"""
    def __init__(self, name):
        self.name = name

    def getattr(self, I, name):
        return Model(lambda I, a, k: None, f"{self.name}.{name}")

    def call(self, I, a, k):
        return self

    def enter(self, I):
        return self

    def exit(self, I, e):
        return False


class EnvModel(ModelObj):
    """os.environ: a fixed host mapping unless a harness supplies another"""
    def __init__(self, d):
        self.d = d

    def m_get(self, I, k, default=None):
        if isinstance(self.d, PDict):
            return I.dict_get(self.d, k, default)
        if not isinstance(k, str):
            raise Unsupported("os.environ with symbolic name")
        return self.d.get(k, default)

    def getitem(self, I, k):
        if isinstance(self.d, PDict):
            return I.getitem(self.d, k)
        if k in self.d:
            return self.d[k]
        I.raise_(KeyError, k)

    def setitem(self, I, k, v):
        if isinstance(self.d, PDict):
            return I.dict_set(self.d, k, v)
        raise Unsupported("assignment to os.environ")

    def delitem(self, I, k):
        return I.dict_del(self.d, k)

    def m_pop(self, I, *a):
        return dict_method(I, self.d, "pop").fn(I, list(a), {})

    def contains(self, I, k):
        if isinstance(self.d, PDict):
            return I.contains(self.d, k)
        return k in self.d

    def m_items(self, I):
        return I.plist(self.d.items()) if not isinstance(self.d, PDict) else DictView(self.d, "items")

    def m_keys(self, I):
        return I.plist(list(self.d)) if not isinstance(self.d, PDict) else DictView(self.d, "keys")

    def to_list(self, I):
        return list(self.d) if not isinstance(self.d, PDict) else I.to_list(self.d)


class Context:
    def __init__(self):
        self.live = {}
        self.contracts = {}
        self.inline = set()
        self.options = {}
        self.modules = {}
        self.assumptions = []
        self.locks = {}
        self.extra = {}         # extra builtin handlers: live callable -> handler

    def builtin(self, f):
        if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, type, types.MethodDescriptorType,
                          types.WrapperDescriptorType, types.ClassMethodDescriptorType)) or callable(f):
            try:
                h = self.extra.get(f) or B.get(f)
            except TypeError:
                return None
            if h is not None:
                return lambda I, a, k: (I.run.ex.models_used.add(getattr(f, "__qualname__", str(f))), h(I, a, k))[1]
            if isinstance(f, (types.MethodDescriptorType,)) and f.__objclass__ in (str, dict, list, tuple, set):
                return lambda I, a, k: I.call(I.getattr(a[0], f.__name__), a[1:], k)
            mod = getattr(f, "__module__", None)
            if mod in NATIVE_MODULES and not isinstance(f, type):
                return lambda I, a, k: native(I, f, a, k)
            if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, "__self__", None), PRIMS + (re.Pattern,)) \
                    and not isinstance(f.__self__, types.ModuleType):
                return lambda I, a, k: native(I, f, a, k)
            if isinstance(f, type) and f in (datetime.datetime, datetime.timedelta, datetime.date):
                return lambda I, a, k: native(I, f, a, k)
            if isinstance(f, types.FunctionType):
                # NumPy array-function dispatchers etc. are resolved by identity in extra/B only
                return None
        return None

    def open(self, I, a, k):
        raise Unsupported("open()")

    def import_module(self, I, name):
        if name in self.modules:
            m = self.modules[name]
            if m is None:
                raise ImportError(f"No module named {name}")
            return m
        return importlib.import_module(name)

    def with_model(self, I, cm):
        if isinstance(cm, LOCKTYPES):
            return self.lock(I, cm)
        return None

    def lock(self, I, cm):
        if id(cm) in self.locks:
            return self.locks[id(cm)]
        g = I.run.ghost.setdefault("livelocks", {})
        if id(cm) not in g:
            g[id(cm)] = NoLock(isinstance(cm, LOCKTYPES[1]))
        return g[id(cm)]

    def method(self, I, o, name):
        if isinstance(o, PDict):
            return dict_method(I, o, name)
        if isinstance(o, PList):
            return list_method(I, o, name)
        if isinstance(o, PSet):
            return set_method(I, o, name)
        if isinstance(o, str) or (isinstance(o, Sym) and o.kind == "str"):
            return strs.method(I, o, name)
        if isinstance(o, tuple):
            return tuple_method(I, o, name)
        if isinstance(o, (bytes, SymBytes)):
            if name == "decode" and isinstance(o, SymBytes):
                from . import fsm
                text = fsm.text_of(I, o)
                if text is not None:
                    return Model(lambda I, a, k: text, "bytes.decode")
            if isinstance(o, bytes) and hasattr(o, name):
                return Model(lambda I, a, k: native(I, getattr(o, name), a, k), "bytes." + name)
            from . import bytesm
            return bytesm.method(I, o, name)
        if isinstance(o, Sym):
            if o.kind == "opaque":
                m = o.meta or {}
                if name in m.get("attrs", {}):
                    v = m["attrs"][name]
                    return v(I, o) if callable(v) and not isinstance(v, (Model, ModelObj)) else v
                if m.get("noattr"):
                    return None
                raise Unsupported(f"attribute {name} of opaque value")
            if name in ("real",):
                return o
            if name == "is_integer" and o.kind == "real":
                return Model(lambda I, a, k: mk("bool", z3.ToReal(z3.ToInt(o.t)) == o.t), "float.is_integer")
            if name in ("bit_length", "as_integer_ratio", "hex"):
                raise Unsupported(name)
            return None
        if isinstance(o, re.Pattern):
            if name in ("match", "search", "fullmatch"):
                return Model(lambda I, a, k: strs.re_match(I, o, a[0], name), "re." + name)
            if name == "pattern":
                return o.pattern
            return Model(lambda I, a, k: native(I, getattr(o, name), a, k), "re." + name)
        if isinstance(o, logging.Logger):
            if name in ("isEnabledFor",):
                return Model(lambda I, a, k: False, "logging ignored")
            if name in ("level",):
                return 0
            return Model(lambda I, a, k: None, "logging ignored")
        if isinstance(o, LOCKTYPES):
            return self.lock(I, o).getattr(I, name)
        if o is os.environ:
            return EnvModel(self.options.get("environ", {})).getattr(I, name)
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if hasattr(o, name):
                v = getattr(o, name)
                return Model(lambda I, a, k: native(I, v, a, k), name) if callable(v) else v
            return None
        if isinstance(o, (datetime.datetime, datetime.timedelta, datetime.date)):
            v = getattr(o, name, MISSING)
            if v is MISSING:
                return None
            return Model(lambda I, a, k: native(I, v, a, k), name) if callable(v) else I.lift(v)
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
            if name in ("__name__", "__qualname__", "__module__", "__doc__"):
                return getattr(o, name)
            if hasattr(o, name):
                return I.lift(getattr(o, name))
            I.raise_(AttributeError, name)
        if isinstance(o, (inspect.Signature, inspect.Parameter)):
            return I.lift(getattr(o, name))
        if isinstance(o, types.MappingProxyType):
            return dict_method(I, I.pdict([(k, I.lift(v)) for k, v in o.items()]), name)
        if type(o).__module__ == "numpy" or type(o).__module__.startswith("numpy."):
            from . import npm
            return npm.method(I, o, name)
        h = self.options.get("method")
        return h(I, o, name) if h else None


# the live os.environ object itself
def with_defaults(ctx):
    ctx.live[id(os.environ)] = lambda I, v: EnvModel(ctx.options.get("environ", {}))
    return ctx


@builtin(datetime.datetime.now, datetime.datetime.utcnow)
def b_now(I, a, k):
    return NowModel(I)


import re as _re_mod


def _re_fn(mode):
    def f(I, a, k):
        p = a[0]
        if len(a) > 2 or k:
            raise Unsupported("regex flags")
        if isinstance(p, str):
            p = _re_mod.compile(p)
        if not isinstance(p, _re_mod.Pattern):
            raise Unsupported("symbolic regex")
        return strs.re_match(I, p, a[1], mode)
    return f


for _m in ("match", "search", "fullmatch"):
    builtin(getattr(_re_mod, _m))(_re_fn(_m))


import random as _random


@builtin(_random.Random.randrange, _random.Random.randint, _random.randrange, _random.randint)
def b_randrange(I, a, k):
    a = [x for x in a if not isinstance(x, _random.Random)]
    t = I.run.fresh(z3.IntSort(), "rand")
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
    I.run.assume(t >= int_term(lo))
    if all(isinstance(x, int) for x in (lo, hi)):
        I.run.assume(t <= hi)
    return Sym("int", t)


@builtin(_random.random)
def b_random(I, a, k):
    t = I.run.fresh(z3.RealSort(), "rand")
    I.run.assume(z3.And(t >= 0, t < 1))
    return Sym("real", t)
