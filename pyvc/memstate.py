"""Symbolic states of earthkit.regrid.utils.memcache.MemoryCache: unbounded content under a monitor."""
import types
import z3
from .core import *
from .core import V
from .models import NoLock
from .amap import AMap, Monitor, MonitorLock, add_fact, name_key, space

SIZE = z3.Function("pure_size", V, z3.IntSort())


def item_class():
    from earthkit.regrid.utils import memcache
    c = getattr(memcache, "_MemoryItem", None)
    if c is None:
        import inspect
        for x in vars(memcache).values():
            if isinstance(x, type) and x.__module__ == memcache.__name__:
                try:
                    names = getattr(x, "_fields", None) or tuple(inspect.signature(x).parameters)
                except (TypeError, ValueError):
                    continue
                if "data" in names and "size" in names:
                    c = x
    if c is None:
        raise Unsupported("class of the cached items")
    return c


def data_of(I, t):
    I.run.assume(t == V.VCons(V.vhead(t), V.VCons(V.vhead(V.vtail(t)), V.VNil)))
    m = Sym("opaque", V.vhead(t), meta={})
    I.run.assume(V.vhead(t) != V.VNone)
    return (m, Sym("opaque", V.vhead(V.vtail(t)), meta={}))


def new_items(I, guard):
    cls = item_class()
    fields = getattr(cls, "_fields", None)
    if fields is None:
        import inspect
        fields = tuple(inspect.signature(cls).parameters)
    if "size" not in fields or "data" not in fields:
        raise Unsupported("layout of the cached items")
    cols = {n: z3.IntSort() if n == "size" else V for n in fields}

    def mkval(I, c, kt):
        vals = []
        for n in fields:
            if n == "size":
                vals.append(Sym("int", c[n]))
            elif n == "data":
                vals.append(data_of(I, c[n]))
            else:
                vals.append(Sym("opaque", c[n], meta={}))
        v = I.call(cls, vals, {})
        if isinstance(v, Obj):
            v.frozen = True
        return v

    def split(I, v):
        out = {}
        for n in fields:
            x = I.getattr(v, n)
            if n == "size":
                if not is_num(x):
                    raise Unsupported("size of a cached item")
                out[n] = int_term(x) if not (isinstance(x, Sym) and x.kind == "real") else z3.ToInt(x.t)
            else:
                out[n] = I.toV(x)
        return out
    m = AMap(I, cols, mkval, split, "size", guard)
    s = m.st
    return m, s


def pair(m):
    return V.VCons(m, V.VCons(V.VNone, V.VNil))


def assume_items(I, m):
    s = m.st
    arg = lambda x: V.VCons(x, V.VNil)
    add_fact(I.run, lambda k: z3.Implies(s.dom[k], s.cols["size"][k] == SIZE(arg(V.vhead(s.cols["data"][k])))))


class RacyPolicy(ModelObj):
    """a policy read without the lock: any of them; has_cache() and has_limit() are arbitrary"""

    def __init__(self):
        self.memo = {}

    def flag(self, I, n):
        if n not in self.memo:
            self.memo[n] = Sym("bool", I.run.fresh(z3.BoolSort(), n))
        return self.memo[n]

    def m_has_cache(self, I):
        return self.flag(I, "has_cache")

    def m_has_limit(self, I):
        return self.flag(I, "has_limit")

    def f_name(self, I):
        from earthkit.regrid.utils import memcache
        names = list(memcache.CACHE_POLICIES)
        return names[I.run.choose(len(names))]


def racy(I, o, name):
    return RacyPolicy() if name == "policy" else None


def arbitrary(held=None):
    todo = [held] if held else []

    def f(I, c):
        from earthkit.regrid.utils import memcache
        run = I.run
        m, s = new_items(I, c.guard)
        assume_items(I, m)
        names = [todo.pop()] if todo and (c.guard is None or c.guard.held) else list(memcache.CACHE_POLICIES)
        name = names[run.choose(len(names))]
        c.fields["items"] = m
        c.fields["curr_mem"] = Sym("int", s.total)
        c.fields["strict"] = Sym("bool", run.fresh(z3.BoolSort(), "strict"))
        for n in ("hits", "misses"):
            c.fields[n] = Sym("int", run.fresh(z3.IntSort(), n))
            run.assume(c.fields[n].t >= 0)
        c.fields["policy"] = I.obj(memcache.CACHE_POLICIES[name], cache=c)
        if name in ("lru", "largest"):
            mm = run.fresh(z3.IntSort(), "max_mem")
            run.assume(mm > 0)
            run.assume(s.total <= mm)
            c.fields["max_mem"] = Sym("int", mm)
        elif name == "off":
            run.assume(s.count == 0)
            run.assume(s.dom == z3.K(V, z3.BoolVal(False)))
            c.fields["max_mem"] = 0
            c.fields["strict"] = False
        else:
            c.fields["max_mem"] = None
            c.fields["strict"] = False
    return f


FIELDS = ("items", "curr_mem", "strict", "hits", "misses", "policy", "max_mem")


def cache_state(I, S, c, concurrent=False, held=None, invariant=None):
    from specs import memcache as sm
    inv = invariant or sm.invariant
    mon = Monitor(c, FIELDS, arbitrary(held), lambda I_, o: I_.call(inv, [S, o]), concurrent)
    for n, v in list(c.fields.items()):
        if isinstance(v, NoLock):
            c.fields[n] = MonitorLock(mon, v.reentrant)
    c.guard = mon
    mon.racy = racy
    if concurrent:
        mon.off, off = 1, mon.off
        c.fields["items"], _ = new_items(I, mon)
        for n in FIELDS[1:]:
            c.fields.setdefault(n, None)
        mon.off = off
    else:
        mon.held += 1
        mon.havoc(I)
        mon.held -= 1
    for m in (c.fields["items"],):
        m.guard = mon
    I.run.ghost["monitor"] = mon


def snapshot(I, S, c):
    """the content of the cache at this moment"""
    m = c.fields["items"]
    f = AMap.__new__(AMap)
    f.cols, f.mkval, f.split, f.measure, f.guard, f.st = m.cols, m.mkval, m.split, m.measure, None, m.st
    f.oid = None
    I.oid(f)
    return f


def same_item(I, S, before, k, v):
    """the value stored under k is v"""
    kt = before.key(I, k)
    w = before.split(I, v)
    return mk("bool", z3.And(*[before.st.cols[n][kt] == w[n] for n in w]))


def setup(I, S):
    I.ctx.options["S_snapshot"] = snapshot
    I.ctx.options["S_same_item"] = same_item
    I.ctx.options["S_cache_state"] = cache_state


# ---------------------------------------------------------------------------------------------
# eviction (C08)
# ---------------------------------------------------------------------------------------------
def mark(I, S, c):
    return c.fields["items"].st


def _gone(s0, s1, k):
    return z3.And(s0.dom[k], z3.Not(s1.dom[k]))


def eviction_order(I, S, label, s0, s1, how):
    """what went between the two states goes before what stayed"""
    run = I.run
    k, j = run.fresh(V, "ek"), run.fresh(V, "ek")
    name_key(run, k), name_key(run, j)
    size = s0.cols["size"]
    o = s0.rank[k] < s0.rank[j] if how == "lru" else size[k] >= size[j] if how == "largest" else z3.BoolVal(False)
    run.check(label, z3.Implies(z3.And(_gone(s0, s1, k), s0.dom[j], s1.dom[j]), o))


def nothing_gone(I, S, label, s0, s1):
    run = I.run
    k = run.fresh(V, "ek")
    name_key(run, k)
    run.check(label, z3.Implies(s0.dom[k], s1.dom[k]))


def needed(I, S, label, s0, s1, aim, new=0):
    """without the last eviction the total would not be below the aim"""
    run = I.run
    last = z3.If(s0.dom[s1.last], s0.cols["size"][s1.last], int_term(new))
    run.check(label, z3.Implies(s1.nrem > s0.nrem, z3.ToReal(s1.total + last) >= real_term(aim)))


def recency(I, S, label, s0, s1, used=None):
    """the relative order of the others is unchanged; what was used comes last"""
    run = I.run
    k, j = run.fresh(V, "ek"), run.fresh(V, "ek")
    name_key(run, k), name_key(run, j)
    u = I.toV(used) if used is not None else None
    both = z3.And(s0.dom[k], s0.dom[j], s1.dom[k], s1.dom[j], k != j)
    others = z3.And(both, k != u, j != u) if u is not None else both
    run.check(label + ": order of the others", z3.Implies(others, (s0.rank[k] < s0.rank[j]) == (s1.rank[k] < s1.rank[j])))
    if u is not None:
        name_key(run, u)
        run.check(label + ": the used one is last", z3.Implies(z3.And(s1.dom[u], s1.dom[k], k != u), s1.rank[k] < s1.rank[u]))


def key_of(I, S, s, data):
    """the key under which data is kept, if any"""
    run = I.run
    if not isinstance(data, tuple):
        return None
    d = I.toV(data)
    for k in list(space(run)["keys"]):
        if run.valid(z3.And(s.dom[k], s.cols["data"][k] == d)):
            return Sym("str", None, (("v", k),))
    return None


def total_of(I, S, s):
    return Sym("int", s.total)


def empty(I, S, s):
    return mk("bool", s.count == 0)


def setup_eviction(I, S):
    setup(I, S)
    for f in (mark, eviction_order, nothing_gone, needed, recency, key_of, total_of, empty):
        I.ctx.options["S_" + f.__name__] = f
