"""Arithmetic and ordering."""
import ast, operator, types
import z3
from .core import *

HOST = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitXor: operator.xor}
DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.BitOr: "or", ast.BitAnd: "and", ast.MatMult: "matmul"}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def isstr(v):
    return isinstance(v, str) or (isinstance(v, Sym) and v.kind == "str")


def binop(I, op, a, b):
    t = type(op)
    if isstr(a):
        from . import strs
        if t is ast.Mod:
            return strs.percent(I, a, b)
        if t is ast.Add:
            if not isstr(b):
                I.raise_(TypeError, "can only concatenate str")
            return strs.concat(I, [a, b])
        if t is ast.Mult and isinstance(a, str) and isinstance(b, int):
            return a * b
        if not isinstance(a, str) or not isinstance(b, (int, str)):
            raise Unsupported("string operator")
    if isinstance(a, PDeque) or isinstance(b, PDeque):
        raise Unsupported("operator on a deque")
    if isinstance(a, PList) and isinstance(b, PList) and t is ast.Add:
        return I.plist(a.items + b.items)
    if isinstance(a, PList) and isinstance(b, int) and t is ast.Mult:
        return I.plist(a.items * b)
    if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
        return a + b
    if isinstance(a, (SymBytes, bytes)) and isinstance(b, (SymBytes, bytes)) and t is ast.Add:
        from . import bytesm
        return bytesm.concat(a, b)
    if t is ast.Mult and isinstance(a, (bytes, SymBytes)) and isinstance(b, int):
        from . import bytesm
        return a * b if isinstance(a, bytes) else bytesm.make(bytesm.parts_of(a) * b)
    if isinstance(a, PDict) and isinstance(b, PDict) and t is ast.BitOr:
        r = I.pdict()
        I.dict_update(r, [a, b], {})
        return r
    if isinstance(a, PSet) and isinstance(b, PSet):
        return setop(I, t, a, b)
    if is_num(a) and is_num(b):
        return num(I, t, a, b)
    if t is ast.BitOr and isinstance(a, type):
        return (a, b)
    for x, y, r in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Obj) and t in DUNDER:
            m = I.class_lookup(x.cls, r + DUNDER[t] + "__")
            if isinstance(m, types.FunctionType):
                return I.call(m, [x, y])
    if isinstance(a, Sym) and a.kind == "opaque" or isinstance(b, Sym) and b.kind == "opaque":
        raise Unsupported("operator on opaque value")
    I.raise_(TypeError, f"unsupported operand types for {t.__name__}: {I.type_of(a).__name__}, {I.type_of(b).__name__}")


def setop(I, t, a, b):
    def has(s, x):
        return I.run.branch(I.truth(I.contains(s, x)))
    if t is ast.BitAnd:
        return PSet([x for x in a.items if has(b, x)])
    if t is ast.Sub:
        return PSet([x for x in a.items if not has(b, x)])
    if t is ast.BitOr:
        return PSet(a.items + [x for x in b.items if not has(a, x)])
    raise Unsupported("set operator")


def num(I, t, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            return HOST[t](a, b)
        except ZeroDivisionError:
            I.raise_(ZeroDivisionError, "division by zero")
        except OverflowError:
            I.raise_(OverflowError, "overflow")
    ka = a.kind if isinstance(a, Sym) else ("real" if isinstance(a, float) else "int")
    kb = b.kind if isinstance(b, Sym) else ("real" if isinstance(b, float) else "int")
    real = "real" in (ka, kb) or t is ast.Div
    if t is ast.Div:
        x, y = real_term(a), real_term(b)
        if I.run.branch(y == 0):
            I.raise_(ZeroDivisionError, "division by zero")
        return mk("real", x / y)
    if t in (ast.Add, ast.Sub, ast.Mult):
        x, y = (real_term(a), real_term(b)) if real else (int_term(a), int_term(b))
        return mk("real" if real else "int", HOST[t](x, y))
    if t in (ast.FloorDiv, ast.Mod):
        if real:
            x, y = real_term(a), real_term(b)
            if I.run.branch(y == 0):
                I.raise_(ZeroDivisionError, "float modulo")
            if isinstance(b, Sym) and not I.run.valid(y > 0):
                raise Unsupported("float modulo by symbolic value")
            memo = I.run.ghost.setdefault("mod", {})
            mk_ = (z3.simplify(x).get_id(), z3.simplify(y).get_id())
            if mk_ in memo:
                q, r = memo[mk_][:2]
                return mk("real", z3.ToReal(q) if t is ast.FloorDiv else r)
            q = I.run.fresh(z3.IntSort(), "q")
            pos = (not isinstance(b, Sym) and b > 0) or I.run.valid(y > 0)
            r = x - z3.ToReal(q) * y
            if pos:
                I.run.assume(z3.And(r >= 0, r < y))
            else:
                I.run.assume(z3.And(r <= 0, r > y))
            memo[mk_] = (q, r, z3.simplify(x), z3.simplify(y))
            return mk("real", z3.ToReal(q) if t is ast.FloorDiv else r)
        x, y = int_term(a), int_term(b)
        if I.run.branch(y == 0):
            I.raise_(ZeroDivisionError, "integer division or modulo by zero")
        if I.run.branch(y > 0):
            return mk("int", x / y if t is ast.FloorDiv else x % y)
        return mk("int", (-x) / (-y) if t is ast.FloorDiv else -((-x) % (-y)))
    if t is ast.Pow and isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = num(I, ast.Mult, r, a)
        return r
    if t in (ast.LShift,) and isinstance(b, int):
        return mk("int", int_term(a) * (1 << b))
    if t is ast.RShift and isinstance(b, int):
        return mk("int", int_term(a) / (1 << b))
    if t is ast.BitAnd and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
        return mk("int", int_term(a) % (b + 1))
    if t in (ast.BitAnd, ast.BitOr) and ka == "bool" and kb == "bool":
        return mk("bool", (z3.And if t is ast.BitAnd else z3.Or)(bool_term(a), bool_term(b)))
    raise Unsupported(f"numeric operator {t.__name__}")


def order(I, op, a, b):
    t = type(op)
    if is_num(a) and is_num(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return CMP[t](a, b)
        ka = a.kind if isinstance(a, Sym) else ("real" if isinstance(a, float) else "int")
        kb = b.kind if isinstance(b, Sym) else ("real" if isinstance(b, float) else "int")
        for x, y, o in ((a, b, t), (b, a, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[t])):
            if isinstance(y, float) and y in (float("inf"), float("-inf")):
                return (y > 0) == (o in (ast.Lt, ast.LtE))
        if "real" in (ka, kb):
            return mk("bool", CMP[t](real_term(a), real_term(b)))
        return mk("bool", CMP[t](int_term(a), int_term(b)))
    if isstr(a) and isstr(b):
        if isinstance(a, str) and isinstance(b, str):
            return CMP[t](a, b)
        from . import strs
        x, y = strs.term(I, a), strs.term(I, b)
        r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[t]()
        return mk("bool", r)
    if isinstance(a, ModelObj) and hasattr(a, "order"):
        return a.order(I, t, b, False)
    if isinstance(b, ModelObj) and hasattr(b, "order"):
        return b.order(I, t, a, True)
    if isinstance(a, PSet) and isinstance(b, PSet):
        sub = lambda p, q: conj([I.contains(q, x) for x in p.items])
        if t is ast.LtE:
            return sub(a, b)
        if t is ast.GtE:
            return sub(b, a)
    if isinstance(a, (tuple, PList)) and type(a) is type(b):
        xs = a if isinstance(a, tuple) else a.items
        ys = b if isinstance(b, tuple) else b.items
        for x, y in zip(xs, ys):
            if not I.run.branch(I.truth(I.eq(x, y))):
                return order(I, ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt(), x, y)
        return CMP[t](len(xs), len(ys))
    if isinstance(a, Sym) and a.kind == "opaque" or isinstance(b, Sym) and b.kind == "opaque":
        raise Unsupported("ordering of opaque values")
    I.raise_(TypeError, f"'{t.__name__}' not supported between instances of {I.type_of(a).__name__} and {I.type_of(b).__name__}")
