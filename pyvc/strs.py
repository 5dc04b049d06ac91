"""Symbolic strings: a tuple of parts.
 part = host str | ('int', Sym int >= 0, canonical decimal) | ('var', z3 String term) | ('v', term of sort V: opaque text)
"""
import ast
import z3
from .core import *
from .core import V

LOW = z3.Function("lower", z3.StringSort(), z3.StringSort())
UP = z3.Function("upper_of_lower", z3.StringSort(), z3.StringSort())
STRIP = z3.Function("strip", z3.StringSort(), z3.StringSort())
VTXT = z3.Function("text_of", V, z3.StringSort())
VLOW = z3.Function("lower_of", V, V)
VUNTXT = z3.Function("value_of_text", z3.StringSort(), V)


def parts_of(I, v):
    if isinstance(v, str):
        return [v] if v else []
    if v.parts is not None:
        return list(v.parts)
    return [("var", v.t)]


def make(parts):
    r = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if r and isinstance(r[-1], str):
                r[-1] += p
                continue
        r.append(p)
    if not r:
        return ""
    if len(r) == 1 and isinstance(r[0], str):
        return r[0]
    if len(r) == 1 and r[0][0] == "var":
        return Sym("str", r[0][1])
    return Sym("str", None, tuple(r))


def concat(I, vs):
    ps = []
    for v in vs:
        ps.extend(parts_of(I, v))
    return make(ps)


def term_of_part(p):
    if isinstance(p, str):
        return z3.StringVal(p)
    if p[0] == "int":
        return z3.IntToStr(int_term(p[1]))
    if p[0] == "var":
        return p[1]
    return VTXT(p[1])


def term(I, v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if v.parts is None:
        return v.t
    for p in v.parts:
        if isinstance(p, tuple) and p[0] == "v":
            known = I.run.ghost.setdefault("texts_known", {})
            if p[1].get_id() not in known:      # different values have different texts
                known[p[1].get_id()] = p[1]
                I.run.assume(VUNTXT(VTXT(p[1])) == p[1])
                if is_plain(I, p) and p[1].num_args() == 0:
                    I.run.assume(z3.Or(p[1] == V.VStr(VTXT(p[1])), z3.And(V.is_VSha(p[1]), z3.Length(VTXT(p[1])) == 64)))
    ts = [term_of_part(p) for p in v.parts]
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def opaque_str(I, base="s"):
    return Sym("str", I.run.fresh(z3.StringSort(), base))


def from_int(v):
    """decimal text of a Sym int; v must be known >= 0"""
    return Sym("str", None, (("int", v),))


def nonempty(I, v):
    for p in v.parts or [("var", v.t)]:
        if isinstance(p, str) or p[0] in ("int", "v"):
            return True
    return z3.Or(*[z3.Length(p[1]) > 0 for p in (v.parts or [("var", v.t)])])


def to_str(I, v):
    if isinstance(v, str) or (isinstance(v, Sym) and v.kind == "str"):
        return v
    if isinstance(v, Sym):
        if v.kind == "int":
            if I.run.valid(v.t >= 0):
                return from_int(v)
            if I.run.branch(v.t >= 0):
                return from_int(v)
            return Sym("str", None, ("-", ("int", mk("int", -v.t))))
        if v.kind == "bool":
            return "True" if I.run.branch(v.t) else "False"
        if v.kind == "real":
            return Sym("str", None, (("v", V.VReal(v.t)),))
        if v.kind == "opaque":
            return Sym("str", None, (("v", V.VCons(v.t, V.VNil)),))
    from .interp import PRIMS
    if isinstance(v, PRIMS):
        return str(v)
    if isinstance(v, Obj) and isinstance(v.cls, type) and issubclass(v.cls, BaseException):
        a = v.fields.get("args", ())
        if len(a) == 1:
            return to_str(I, a[0])
        return opaque_str(I, "exc")
    if hasattr(v, "to_str"):
        return v.to_str(I)
    from .models import host, NotHost
    if isinstance(v, (PList, PDict, PSet, tuple)):
        try:
            return str(host(I, v))
        except NotHost:
            pass
    try:
        return Sym("str", None, (("v", V.VCons(I.toV(v), V.VObj(z3.IntVal(-7)))),))
    except Unsupported:
        return opaque_str(I, "text")


def eq(I, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = parts_of(I, a), parts_of(I, b)
    conds = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0:1] = [x[n:]] if len(x) > n else []
            pb[0:1] = [y[n:]] if len(y) > n else []
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            if x[0] == y[0] == "var" and x[1].eq(y[1]):
                pa.pop(0), pb.pop(0)
                continue
            if x[0] == y[0] == "int" and _nondigit(pa[1:]) and _nondigit(pb[1:]):
                conds.append(mk("bool", int_term(x[1]) == int_term(y[1])))
                pa.pop(0), pb.pop(0)
                continue
            if x[0] == y[0] == "v" and len(pa) == 1 and len(pb) == 1:
                conds.append(mk("bool", x[1] == y[1]))
                pa.pop(0), pb.pop(0)
                continue
            if x[0] == y[0] == "v" and x[1].eq(y[1]):
                pa.pop(0), pb.pop(0)
                continue
            if is_plain(I, x) and is_plain(I, y):
                na, nb = (name_ends(q) for q in (pa, pb))
                if na and nb:       # both are whole names here
                    conds.append(mk("bool", x[1] == y[1]))
                    pa.pop(0), pb.pop(0)
                    continue
            break
        s, o, rest_s, rest_o = (x, y, pa, pb) if isinstance(x, str) else (y, x, pb, pa)
        if o[0] == "v" and o[1].decl().name() == "VSha" and any(c not in "0123456789abcdef" for c in s[:64]) and (len(rest_s) == 1 or len(s) >= 64):
            return False        # the text of a digest
        if is_plain(I, o) and name_ends(rest_o):
            k = 0
            while k < len(s) and plain_char(s[k]):
                k += 1
            if k == 0 or len(rest_o) == 1 and k < len(s):
                return False
            if k < len(s) or len(rest_s) == 1 and len(rest_o) == 1:
                conds.append(mk("bool", term(I, make([o])) == z3.StringVal(s[:k])))
                rest_s[0:1] = [s[k:]] if len(s) > k else []
                rest_o.pop(0)
                continue
        if o[0] == "int":
            k = 0
            while k < len(s) and s[k].isdigit():
                k += 1
            if k == 0:
                return False
            if (k < len(s) or _nondigit(rest_s[1:])) and _nondigit(rest_o[1:]):
                d = s[:k]
                if str(int(d)) != d:
                    return False
                conds.append(mk("bool", int_term(o[1]) == int(d)))
                rest_s[0:1] = [s[k:]] if len(s) > k else []
                rest_o.pop(0)
                continue
        break
    if not pa and not pb:
        return conj(conds)
    # one side exhausted: the other must be empty
    if not pa or not pb:
        rest = pa or pb
        for p in rest:
            if isinstance(p, str) or p[0] in ("int", "v"):
                return False
        return conj(conds + [mk("bool", z3.Length(p[1]) == 0) for p in rest])
    # compare from the right as well: cheap refutation
    x, y = pa[-1], pb[-1]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[-n:] != y[-n:]:
            return False
    if len(pa) == len(pb) and all(isinstance(p, tuple) and p[0] == "v" for p in pa + pb):
        I.run.imprecise = True
        return conj(conds + [mk("bool", p[1] == q[1]) for p, q in zip(pa, pb)])
    ta, tb = term(I, make(pa)), term(I, make(pb))
    return conj(conds + [mk("bool", ta == tb)])


def name_ends(ps):
    """the name in front is not followed by more of a name"""
    return len(ps) == 1 or isinstance(ps[1], str) and not plain_char(ps[1][0])


def _nondigit(ps):
    if not ps:
        return True
    p = ps[0]
    return isinstance(p, str) and not p[0].isdigit()


def getitem(I, o, k):
    if isinstance(o, str) and not isinstance(k, Sym) and not (isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step))):
        try:
            return o[k]
        except IndexError:
            I.raise_(IndexError, "string index out of range")
        except TypeError:
            I.raise_(TypeError, "string indices must be integers")
    ps = parts_of(I, o)
    if isinstance(k, slice) and k.step in (None, 1):
        lo, hi = k.start or 0, k.stop
        if isinstance(lo, int) and lo >= 0 and hi is None:
            # drop lo leading characters
            while lo and ps and isinstance(ps[0], str):
                n = min(lo, len(ps[0]))
                ps[0:1] = [ps[0][n:]] if len(ps[0]) > n else []
                lo -= n
            if lo == 0:
                return make(ps)
            if not ps:
                return ""
            t = term(I, make(ps))
            return Sym("str", z3.SubString(t, lo, z3.Length(t)))
        if isinstance(hi, int) and hi < 0 and isinstance(lo, int) and lo == 0:
            n = -hi
            while n and ps and isinstance(ps[-1], str):
                m = min(n, len(ps[-1]))
                q = ps[-1][:-m]
                ps[-1:] = [q] if q else []
                n -= m
            if n == 0:
                return make(ps)
        if isinstance(hi, int) and hi >= 0 and isinstance(lo, int) and lo >= 0:
            if ps and isinstance(ps[0], str) and len(ps[0]) >= hi:
                return ps[0][lo:hi]
            t = term(I, o)
            return Sym("str", z3.SubString(t, lo, max(hi - lo, 0)))
        raise Unsupported("string slice")
    if isinstance(k, int):
        if k >= 0 and ps and isinstance(ps[0], str) and len(ps[0]) > k:
            return ps[0][k]
        if k < 0 and ps and isinstance(ps[-1], str) and len(ps[-1]) >= -k:
            return ps[-1][k]
        t = term(I, o)
        n = z3.Length(t)
        if k >= 0:
            if not I.run.branch(n > k):
                I.raise_(IndexError, "string index out of range")
            return Sym("str", z3.SubString(t, k, 1))
        if not I.run.branch(n >= -k):
            I.raise_(IndexError, "string index out of range")
        return Sym("str", z3.SubString(t, n + k, 1))
    raise Unsupported("string index")


def contains(I, o, x):
    if isinstance(o, str) and isinstance(x, str):
        return x in o
    if not (isinstance(x, str) or (isinstance(x, Sym) and x.kind == "str")):
        I.raise_(TypeError, "'in <string>' requires string")
    if isinstance(x, str):
        for p in parts_of(I, o):
            if isinstance(p, str) and x in p:
                return True
    return mk("bool", z3.Contains(term(I, o), term(I, x)))


def chars(I, v):
    raise Unsupported("iteration over symbolic string")


def map_parts(I, v, fn_lit, fn_var):
    ps = []
    for p in parts_of(I, v):
        if isinstance(p, str):
            ps.append(fn_lit(p))
        elif p[0] == "int":
            ps.append(p)
        elif p[0] == "var":
            ps.append(("var", fn_var(p[1])))
        else:
            ps.append(("var", fn_var(VTXT(p[1]))))
    return make(ps)


def lower(I, v):
    def f(t):
        if t.decl().eq(LOW):
            return t
        if t.decl().eq(UP):
            return t.arg(0)
        r = LOW(t)
        I.run.assume(LOW(r) == r)
        I.run.assume(z3.Length(r) == z3.Length(t))
        return r
    if any(is_plain(I, p) for p in parts_of(I, v)):
        ps = []
        for p in parts_of(I, v):
            if is_plain(I, p):
                if not p[1].decl().eq(VLOW) and p[1].decl().name() != "VSha":
                    t = VLOW(p[1])
                    I.run.assume(VLOW(t) == t)
                    I.run.ghost["plain"][t.get_id()] = t
                    p = ("v", t)
                ps.append(p)
            else:
                ps.append(map_parts(I, make([p]), str.lower, f))
        return concat(I, [p if isinstance(p, (str, Sym)) else make([p]) for p in ps])
    return map_parts(I, v, str.lower, f)


def upper(I, v):
    def f(t):
        if t.decl().eq(UP):
            return t
        l = LOW(t) if not t.decl().eq(LOW) else t
        r = UP(l)
        I.run.assume(LOW(r) == l)
        I.run.assume(z3.Length(r) == z3.Length(t))
        return r
    return map_parts(I, v, str.upper, f)


def is_plain(I, p):
    """a name: letters, digits, underscores, at least one"""
    return isinstance(p, tuple) and p[0] == "v" and p[1].get_id() in I.run.ghost.get("plain", ())


def plain_char(c):
    return c.isalnum() or c == "_"


def startswith(I, v, pre):
    if isinstance(pre, tuple):
        return disj([startswith(I, v, p) for p in pre])
    if isinstance(v, str) and isinstance(pre, str):
        return v.startswith(pre)
    ps, qs = parts_of(I, v), parts_of(I, pre)
    conds = []
    while qs:
        if not ps:
            if all(isinstance(q, tuple) and q[0] == "var" for q in qs):
                return conj(conds + [mk("bool", z3.Length(q[1]) == 0) for q in qs])
            return False
        x, y = ps[0], qs[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            ps[0:1] = [x[n:]] if len(x) > n else []
            qs[0:1] = [y[n:]] if len(y) > n else []
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[1].eq(y[1]):
            ps.pop(0), qs.pop(0)
            continue
        if isinstance(x, tuple) and x[0] == "int" and isinstance(y, str) and not y[0].isdigit():
            return False
        if is_plain(I, x) and isinstance(y, str):
            k = 0
            while k < len(y) and plain_char(y[k]):
                k += 1
            if k == 0:
                return False
            if k < len(y) and len(ps) == 1:
                return False
            if k < len(y) and name_ends(ps):
                conds.append(mk("bool", term(I, make([x])) == z3.StringVal(y[:k])))
                ps.pop(0)
                qs[0] = y[k:]
                continue
        return conj(conds + [mk("bool", z3.PrefixOf(term(I, make(qs)), term(I, make(ps))))])
    return conj(conds)


def endswith(I, v, suf):
    if isinstance(suf, tuple):
        return disj([endswith(I, v, p) for p in suf])
    if isinstance(v, str) and isinstance(suf, str):
        return v.endswith(suf)
    ps = parts_of(I, v)
    if isinstance(suf, str) and ps and isinstance(ps[-1], str) and (len(ps[-1]) >= len(suf) or not suf.endswith(ps[-1])):
        return ps[-1].endswith(suf)
    if isinstance(suf, str) and suf and ps and is_plain(I, ps[-1]) and not plain_char(suf[-1]):
        return False
    return mk("bool", z3.SuffixOf(term(I, suf), term(I, v)))


def to_int(I, v):
    """int(str)"""
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_(ValueError, "invalid literal for int()")
    ps = parts_of(I, v)
    if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == "int":
        return ps[0][1]
    if len(ps) == 2 and ps[0] == "-" and isinstance(ps[1], tuple) and ps[1][0] == "int":
        return mk("int", -int_term(ps[1][1]))
    if len(ps) >= 2 and isinstance(ps[0], tuple) and ps[0][0] == "int" and isinstance(ps[1], str) and not (ps[1][0].isdigit() or ps[1][0] in "_ \t\n"):
        I.raise_(ValueError, "invalid literal for int()")
    if isinstance(ps[0], str) and ps[0].isdigit() and set(ps[0]) == {"0"} and len(ps) == 2 and ps[1][0] == "int":
        return ps[1][1]
    t = term(I, v)
    digits = z3.Plus(z3.Range("0", "9"))
    if I.run.branch(z3.InRe(t, digits)):
        return Sym("int", z3.StrToInt(t))
    I.run.imprecise = True      # signs, blanks and underscores are accepted by int()
    I.raise_(ValueError, "invalid literal for int()")


WS = " \t\n\r\x0b\x0c"


def strip(I, v, chars=None, left=True, right=True):
    if isinstance(v, str):
        if chars is None:
            return v.strip() if left and right else v.lstrip() if left else v.rstrip()
        if isinstance(chars, str):
            return v.strip(chars) if left and right else v.lstrip(chars) if left else v.rstrip(chars)
    cs = WS if chars is None else chars
    ps = parts_of(I, v)
    if left:
        while ps and isinstance(ps[0], str):
            q = ps[0].lstrip(cs)
            if q:
                ps[0] = q
                break
            ps.pop(0)
        if ps and isinstance(ps[0], tuple) and ps[0][0] in ("var", "v") and not solid(I, ps[0], cs):
            return _strip_var(I, v, cs, left, right)
    if right:
        while ps and isinstance(ps[-1], str):
            q = ps[-1].rstrip(cs)
            if q:
                ps[-1] = q
                break
            ps.pop()
        if ps and isinstance(ps[-1], tuple) and ps[-1][0] in ("var", "v") and not solid(I, ps[-1], cs):
            return _strip_var(I, v, cs, left, right)
    return make(ps)


def solid(I, p, cs):
    """a name without any of these characters"""
    return is_plain(I, p) and not any(c.isalnum() or c == "_" for c in cs)


def _strip_var(I, v, cs, left, right):
    t = term(I, v)
    a, m, b = (I.run.fresh(z3.StringSort(), n) for n in ("ls", "st", "rs"))
    ws = z3.Star(z3.Union(*[z3.Re(c) for c in cs])) if len(cs) > 1 else z3.Star(z3.Re(cs))
    one = z3.Union(*[z3.Re(c) for c in cs]) if len(cs) > 1 else z3.Re(cs)
    I.run.assume(t == z3.Concat(a, m, b))
    I.run.assume(z3.InRe(a, ws) if left else z3.Length(a) == 0)
    I.run.assume(z3.InRe(b, ws) if right else z3.Length(b) == 0)
    allc = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    if left:
        I.run.assume(z3.Not(z3.InRe(m, z3.Concat(one, allc))))
    if right:
        I.run.assume(z3.Not(z3.InRe(m, z3.Concat(allc, one))))
    I.run.assume(z3.Implies(z3.Length(m) == 0, z3.Length(b) == 0))
    return Sym("str", m)


def method(I, v, name):
    """methods of str values (host or symbolic)"""
    def allhost(a, k):
        return isinstance(v, str) and all(I.is_concrete(x) for x in a) and all(I.is_concrete(x) for x in k.values())

    def m(I, a, k):
        if allhost(a, k) and hasattr(str, name) and name != "format":
            try:
                return I.lift(getattr(v, name)(*a, **k))
            except (TypeError, ValueError, IndexError, KeyError, UnicodeError) as e:
                I.raise_(type(e), str(e))
        if name in ("lower", "casefold"):
            return lower(I, v)
        if name == "upper":
            return upper(I, v)
        if name == "startswith":
            return startswith(I, v, a[0])
        if name == "endswith":
            return endswith(I, v, a[0])
        if name in ("strip", "lstrip", "rstrip"):
            return strip(I, v, a[0] if a else None, name != "rstrip", name != "lstrip")
        if name == "encode":
            return SymBytes([("enc", v)])
        if name == "join":
            items = I.to_list(a[0])
            out = []
            for i, x in enumerate(items):
                if not (isinstance(x, str) or (isinstance(x, Sym) and x.kind == "str")):
                    I.raise_(TypeError, "sequence item: expected str instance")
                if i:
                    out.append(v)
                out.append(x)
            return concat(I, out)
        if name == "format":
            return fmt(I, v, a, k)
        if name == "replace" and all(isinstance(x, str) for x in a[:2]):
            return replace(I, v, a[0], a[1])
        if name == "isdigit" or name == "isdecimal":
            ps = parts_of(I, v)
            if all((isinstance(p, str) and p.isdigit()) or (isinstance(p, tuple) and p[0] == "int") for p in ps):
                return True
            if any(isinstance(p, str) and not p.isdigit() for p in ps):
                return False
            return mk("bool", z3.InRe(term(I, v), z3.Plus(z3.Range("0", "9"))))
        if name == "split" and a and isinstance(a[0], str) and not k:
            return split(I, v, a[0], a[1] if len(a) > 1 else -1)
        if name == "partition" or name == "rpartition" or name == "rsplit":
            return split_misc(I, v, name, a)
        if name == "isalpha" and isinstance(v, Sym):
            return mk("bool", z3.InRe(term(I, v), z3.Plus(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z")))))
        raise Unsupported(f"str.{name}")
    if hasattr(str, name) and not name.startswith("__"):
        return Model(m, "str." + name)
    return None


def replace(I, v, a, b):
    out = []
    for p in parts_of(I, v):
        if isinstance(p, str):
            out.append(p.replace(a, b))
        elif p[0] == "int":
            if any(c.isdigit() for c in a):
                raise Unsupported("replace digits")
            out.append(p)
        else:
            raise Unsupported("str.replace on symbolic text")
    return make(out)


def split(I, v, sep, maxn):
    ps = parts_of(I, v)
    cur, out = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split(sep)
            for j, b in enumerate(bits):
                if j:
                    out.append(make(cur))
                    cur = []
                cur.append(b)
        elif p[0] == "int" and not any(c.isdigit() for c in sep):
            cur.append(p)
        else:
            raise Unsupported("split of symbolic text")
    out.append(make(cur))
    if maxn != -1 and len(out) > maxn + 1:
        raise Unsupported("split with limit")
    return I.plist(out)


def split_misc(I, v, name, a):
    raise Unsupported(f"str.{name} on symbolic text")


def fmt(I, v, a, k):
    if not isinstance(v, str):
        raise Unsupported("format of symbolic text")
    import string
    out, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(v):
        out.append(lit)
        if field is None:
            continue
        if spec or conv:
            out.append(opaque_str(I, "fmt"))
            n += 1
            continue
        if field == "":
            x = a[n]
            n += 1
        elif field.isdigit():
            x = a[int(field)]
        elif field in k:
            x = k[field]
        else:
            raise Unsupported("format field")
        out.append(to_str(I, x))
    return concat(I, out)


def percent(I, v, b):
    """'...' % args"""
    if not isinstance(v, str):
        raise Unsupported("% on symbolic text")
    args = list(b) if isinstance(b, tuple) else [b]
    if all(I.is_concrete(x) for x in args):
        try:
            return v % (b if not isinstance(b, tuple) else tuple(args))
        except (TypeError, ValueError) as e:
            I.raise_(type(e), str(e))
    out, i, n = [], 0, 0
    while i < len(v):
        j = v.find("%", i)
        if j < 0:
            out.append(v[i:])
            break
        out.append(v[i:j])
        c = v[j + 1] if j + 1 < len(v) else ""
        if c == "%":
            out.append("%")
        elif c in ("s", "d"):
            out.append(to_str(I, args[n]))
            n += 1
        else:
            return opaque_str(I, "fmt")
        i = j + 2
    return concat(I, out)


# ---------------------------------------------------------------------------------------------
# regular expressions
# ---------------------------------------------------------------------------------------------
import re as _re
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:
    import sre_parse, sre_constants as sre_c

ALPHA = [(ord("0"), ord("9")), (ord("A"), ord("Z")), (ord("_"), ord("_")), (ord("a"), ord("z"))]
_RS = z3.ReSort(z3.StringSort())


def _cls(ranges):
    rs = [z3.Range(chr(a), chr(b)) if a != b else z3.Re(chr(a)) for a, b in ranges]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def _category(c):
    if c == sre_c.CATEGORY_DIGIT:
        return [(48, 57)]
    if c == sre_c.CATEGORY_WORD:
        return ALPHA
    if c == sre_c.CATEGORY_SPACE:
        return [(ord(x), ord(x)) for x in WS]
    raise Unsupported("regex category")


class Rx:
    """translated pattern: list of items (z3 Re, group index or None, nullable)"""
    def __init__(self, pattern):
        if pattern.flags & ~(_re.UNICODE):
            raise Unsupported("regex flags")
        p = sre_parse.parse(pattern.pattern)
        self.start = self.end = False
        self.items = []
        self.dets = []
        toks = list(p)
        for i, (op, av) in enumerate(toks):
            if op is sre_c.AT:
                if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                    if i:
                        raise Unsupported("regex ^")
                    self.start = True
                elif av in (sre_c.AT_END, sre_c.AT_END_STRING):
                    if i != len(toks) - 1:
                        raise Unsupported("regex $")
                    self.end = True
                    self.dollar = av is sre_c.AT_END
                else:
                    raise Unsupported("regex anchor")
                continue
            self.items.append(self.item(op, av))
            self.dets.append(self.det(op, av))
        self.groups = pattern.groups

    def item(self, op, av):
        if op is sre_c.SUBPATTERN:
            g, _, _, sub = av
            return (self.seq(sub), g, False, self.last(sub))
        if op is sre_c.MAX_REPEAT and av[0] == 0 and av[1] == 1 and len(av[2]) == 1 and av[2][0][0] is sre_c.SUBPATTERN:
            g, _, _, sub = av[2][0][1]
            return (self.seq(sub), g, True, self.last(sub))
        return (self.one(op, av), None, False, None)

    def last(self, sub):
        """character ranges of a trailing greedy repetition of one class (for maximal munch)"""
        t = list(sub)
        if len(t) == 1 and t[0][0] is sre_c.MAX_REPEAT and len(t[0][1][2]) == 1:
            op, av = t[0][1][2][0]
            try:
                return self.ranges(op, av)
            except Unsupported:
                return None
        return None

    def det(self, op, av, group=None, opt=False):
        """(class ranges, min, max, group, optional) of an item that repeats one character class, or None"""
        if op is sre_c.SUBPATTERN and len(av[3]) == 1:
            return self.det(*av[3][0], av[0], opt) if not opt else None
        if op is sre_c.MAX_REPEAT and len(av[2]) == 1:
            lo, hi, sub = av
            o, a = sub[0]
            if (lo, hi) == (0, 1) and o is sre_c.SUBPATTERN and len(a[3]) == 1 and group is None:
                d = self.det(*a[3][0], a[0], False)
                return d and (d[0], d[1], d[2], d[3], True)
            try:
                return (self.ranges(o, a), lo, None if hi is sre_c.MAXREPEAT or hi >= 2**31 else hi, group, opt)
            except Unsupported:
                return None
        try:
            return (self.ranges(op, av), 1, 1, group, opt)
        except Unsupported:
            return None

    def ranges(self, op, av):
        if op is sre_c.LITERAL:
            return [(av, av)]
        if op is sre_c.IN:
            r = []
            for o, a in av:
                if o is sre_c.LITERAL:
                    r.append((a, a))
                elif o is sre_c.RANGE:
                    r.append(tuple(a))
                elif o is sre_c.CATEGORY:
                    r += _category(a)
                else:
                    raise Unsupported("regex class")
            return r
        raise Unsupported("regex class")

    def one(self, op, av):
        if op in (sre_c.LITERAL, sre_c.IN):
            return _cls(self.ranges(op, av))
        if op is sre_c.ANY:
            return z3.Diff(z3.AllChar(_RS), z3.Re("\n")) if hasattr(z3, "Diff") else z3.AllChar(_RS)
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi is sre_c.MAXREPEAT or hi >= 2**31:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if (lo, hi) == (0, 1):
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if op is sre_c.SUBPATTERN:
            return self.seq(av[3])
        if op is sre_c.BRANCH:
            return z3.Union(*[self.seq(x) for x in av[1]])
        if op is sre_c.NOT_LITERAL:
            raise Unsupported("regex negation")
        raise Unsupported(f"regex operator {op}")

    def seq(self, sub):
        rs = [self.one(op, av) for op, av in sub]
        if not rs:
            return z3.Re("")
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def lang(self):
        rs = []
        for r, g, opt, _ in self.items:
            rs.append(z3.Option(r) if opt else r)
        return rs[0] if len(rs) == 1 else z3.Concat(*rs) if rs else z3.Re("")


_rx = {}


def rx_of(pattern):
    k = pattern.pattern
    if k not in _rx:
        _rx[k] = Rx(pattern)
    return _rx[k]


def lang_of_parts(I, v):
    """regular language containing the string (exact for structured strings), and whether it is exact"""
    rs, exact = [], True
    for p in parts_of(I, v):
        if isinstance(p, str):
            rs.append(z3.Re(p))
        elif p[0] == "int":
            rs.append(z3.Union(z3.Re("0"), z3.Concat(z3.Range("1", "9"), z3.Star(z3.Range("0", "9")))))
        elif p[0] == "var" and p[1].get_id() in I.run.ghost.get("lang", {}):
            rs.append(I.run.ghost["lang"][p[1].get_id()])
        else:
            return None
    if not rs:
        return z3.Re("")
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


_incl = {}


def _nonempty_lang(r):
    k = r.sexpr()
    if k not in _incl:
        s = z3.Solver()
        s.set("timeout", 3000)
        x = z3.String("x")
        s.add(z3.InRe(x, r))
        c = s.check()
        _incl[k] = True if c == z3.sat else False if c == z3.unsat else None
    return _incl[k]


def re_match(I, pattern, v, mode):
    """mode: match, search, fullmatch -> match object or None"""
    if isinstance(v, str):
        m = getattr(pattern, mode)(v)
        return None if m is None else MatchHost(m)
    if not (isinstance(v, Sym) and v.kind == "str"):
        I.raise_(TypeError, "expected string or bytes-like object")
    rx = rx_of(pattern)
    allc = z3.Star(z3.AllChar(_RS))
    core = rx.lang()
    # prefix/suffix context
    pre = mode == "search" and not rx.start
    end = rx.end or mode == "fullmatch"
    dollar = rx.end and getattr(rx, "dollar", False) and mode != "fullmatch"
    full = core
    if pre:
        full = z3.Concat(allc, full)
    if not end:
        full = z3.Concat(full, allc)
    elif dollar:
        full = z3.Concat(full, z3.Option(z3.Re("\n")))
    lang = lang_of_parts(I, v)
    matched = None
    if lang is not None:
        if _nonempty_lang(z3.Intersect(lang, full)) is False:
            matched = False
        elif _nonempty_lang(z3.Intersect(lang, z3.Complement(full))) is False:
            matched = True
    if matched is None:
        matched = I.run.branch(z3.InRe(term(I, v), full))
    if not matched:
        return None
    return MatchSym(I, rx, v, pre, end, dollar)


class MatchHost(ModelObj):
    pytypes = (_re.Match,)

    def __init__(self, m):
        self.m = m

    def m_group(self, I, *a):
        return self.m.group(*a)

    def m_groups(self, I, *a):
        return self.m.groups(*a)

    def m_groupdict(self, I):
        return I.lift(self.m.groupdict())

    def m_start(self, I, *a):
        return self.m.start(*a)

    def m_end(self, I, *a):
        return self.m.end(*a)

    def m_span(self, I, *a):
        return self.m.span(*a)

    def getitem(self, I, k):
        return self.m[k]


class MatchSym(ModelObj):
    pytypes = (_re.Match,)

    def __init__(self, I, rx, v, pre, end, dollar):
        self.rx, self.v, self.pre, self.end, self.dollar = rx, v, pre, end, dollar
        self.g = None

    def groups_(self, I):
        if self.g is not None:
            return self.g
        rx = self.rx
        s = greedy_groups(I, rx, self.v, self.pre, self.end)
        if s is None:
            s = structured_groups(I, rx, self.v, self.pre, self.end)
        if s is not None:
            self.g = s
            return s
        t = term(I, self.v)
        segs, g = [], {}
        if self.pre:
            segs.append(I.run.fresh(z3.StringSort(), "pre"))
        items = []
        for r, gi, opt, last in rx.items:
            x = I.run.fresh(z3.StringSort(), "g")
            segs.append(x)
            items.append((x, r, gi, opt, last))
        if not self.end:
            segs.append(I.run.fresh(z3.StringSort(), "post"))
        elif self.dollar:
            nl = I.run.fresh(z3.StringSort(), "nl")
            I.run.assume(z3.Or(nl == "", nl == "\n"))
            segs.append(nl)
        I.run.assume(t == (segs[0] if len(segs) == 1 else z3.Concat(*segs)))
        allc = z3.Star(z3.AllChar(_RS))
        for i, (x, r, gi, opt, last) in enumerate(items):
            if opt:
                if I.run.branch(z3.InRe(x, r)):
                    g[gi] = Sym("str", x)
                else:
                    I.run.assume(x == "")
                    g[gi] = None
            else:
                I.run.assume(z3.InRe(x, r))
                if gi is not None:
                    g[gi] = Sym("str", x)
        # maximal munch of greedy single-class groups
        off = 1 if self.pre else 0
        for i, (x, r, gi, opt, last) in enumerate(items):
            if last and i + off + 1 < len(segs):
                rest = segs[i + off + 1:]
                rt = rest[0] if len(rest) == 1 else z3.Concat(*rest)
                I.run.assume(z3.Not(z3.InRe(rt, z3.Concat(_cls(last), allc))))
        g[0] = Sym("str", t) if self.end and not self.pre else None
        self.g = g
        return g

    def m_group(self, I, *idx):
        if not idx:
            idx = (0,)
        g = self.groups_(I)
        if idx[0] not in g:
            I.raise_(IndexError, "no such group")
        if len(idx) == 1:
            if idx[0] == 0 and g[0] is None:
                raise Unsupported("group 0")
            return g[idx[0]]
        return tuple(g[i] for i in idx)

    def m_groups(self, I):
        g = self.groups_(I)
        return tuple(g[i] for i in range(1, self.rx.groups + 1))

    def getitem(self, I, k):
        return self.m_group(I, k)


def greedy_groups(I, rx, v, pre, end):
    """exact group assignment when greedy matching succeeds without backtracking: every item repeats one character
    class, takes as much as it can, and the text after it provably does not start in its class"""
    if pre or any(d is None for d in rx.dets):
        return None
    toks = []
    for p in parts_of(I, v):
        toks.extend(list(p) if isinstance(p, str) else [p])
    allc = z3.Star(z3.AllChar(_RS))

    def lang(ts):
        return lang_of_parts(I, make(ts)) if ts else z3.Re("")

    def within(l, r):
        return _nonempty_lang(z3.Intersect(l, z3.Complement(r))) is False

    g, pos = {}, 0
    for ranges, lo, hi, gi, opt in rx.dets:
        c = _cls(ranges)
        start, n = pos, 0
        while pos < len(toks):
            if hi is not None and n >= hi:
                break
            t = toks[pos]
            if isinstance(t, str):
                if not any(a <= ord(t) <= b for a, b in ranges):
                    break
                n += 1
            else:
                l = lang([t])
                if l is None or hi is not None:
                    return None
                if not within(l, z3.Star(c)):
                    break
                n += 0 if _nonempty_lang(z3.Intersect(l, z3.Re(""))) is not False else 1
            pos += 1
        rest = lang(toks[pos:])
        if rest is None:
            return None
        if (hi is None or n < hi) and _nonempty_lang(z3.Intersect(rest, z3.Concat(c, allc))) is not False:
            return None
        if n < lo:
            # an empty optional group; a required item that cannot match would need backtracking
            if not (opt and pos == start):
                return None
            g[gi] = None
        elif gi is not None:
            g[gi] = make(toks[start:pos])
    if end:
        left = toks[pos:]
        if left and not (left == ["\n"] and getattr(rx, "dollar", False)):
            return None
    g[0] = make(toks[:pos])
    return g


def structured_groups(I, rx, v, pre, end):
    """exact group assignment by matching a representative of the structured string: the decimal part is
    replaced by a digit string; sound when group boundaries do not fall inside a decimal part."""
    ps = parts_of(I, v)
    if any(isinstance(p, tuple) and p[0] != "int" for p in ps):
        return None
    reps = {}
    for digits in ("7", "31", "4862"):
        txt, bounds = "", []
        for p in ps:
            a = len(txt)
            txt += p if isinstance(p, str) else digits
            bounds.append((a, len(txt), p))
        pat = [k for k, x in _rx.items() if x is rx][0]
        m = _re.search(pat, txt) if pre or rx.start else _re.match(pat, txt)
        if m is None:
            return None
        res = {}
        for i in range(0, rx.groups + 1):
            if m.group(i) is None:
                res[i] = None
                continue
            a, b = m.span(i)
            out = []
            for lo, hi, p in bounds:
                if hi <= a or lo >= b:
                    continue
                if isinstance(p, str):
                    out.append(p[max(a - lo, 0):min(b, hi) - lo])
                else:
                    if a > lo or b < hi:
                        return None
                    out.append(p)
            res[i] = make(out)
        reps[digits] = res
    vals = list(reps.values())
    for r in vals[1:]:
        for i in r:
            x, y = r[i], vals[0][i]
            if (x is None) != (y is None):
                return None
            if x is not None and repr(x) != repr(y):
                return None
    return vals[0]
