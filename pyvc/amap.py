"""Ordered maps of unbounded size (the content of a cache) and monitors (state protected by a lock).

A map is a set of z3 arrays over keys of sort V: membership, insertion rank, one array per column of the values, plus ghost
values: number of entries, total of the measure column, number of removals and the key removed last.  Facts about all
keys (pairs of keys) are kept as host functions and instantiated at every key that is named on the path; an obligation
about all keys is proved for a fresh key.
"""
import ast, collections, types
import z3
from .core import *
from .core import V
from .interp import Env, Poison


# ---------------------------------------------------------------------------------------------
# instantiation
# ---------------------------------------------------------------------------------------------
def space(run):
    g = run.ghost.get("amap")
    if g is None:
        g = run.ghost["amap"] = {"keys": [], "facts": [], "pairs": []}
    return g


def name_key(run, kt):
    g = space(run)
    ids = g.setdefault("ids", set())
    if kt.get_id() in ids:
        return kt
    ids.add(kt.get_id())
    for f in g["facts"]:
        run.assume(f(kt))
    for f in g["pairs"]:
        for k in g["keys"]:
            run.assume(f(kt, k))
            run.assume(f(k, kt))
        run.assume(f(kt, kt))
    g["keys"].append(kt)
    return kt


K0, K1 = z3.Const("key!0", V), z3.Const("key!1", V)


def template(f, n):
    t = f(K0, K1) if n == 2 else f(K0)
    if isinstance(t, bool):
        t = z3.BoolVal(t)
    if n == 2:
        return lambda k, j: z3.substitute(t, (K0, k), (K1, j))
    return lambda k: z3.substitute(t, (K0, k))


def add_fact(run, f):
    g = space(run)
    f = template(f, 1)
    for k in g["keys"]:
        run.assume(f(k))
    g["facts"].append(f)


def add_pair(run, f):
    g = space(run)
    f = template(f, 2)
    for k in g["keys"]:
        for j in g["keys"]:
            run.assume(f(k, j))
    g["pairs"].append(f)


def generic(run, i):
    """a key about which nothing is assumed beyond facts holding for all keys: what is proved for it holds for all"""
    g = space(run)
    sk = g.setdefault("generic", {})
    if i not in sk:
        sk[i] = run.fresh(V, "gk")
    return name_key(run, sk[i])


def forget(run):
    """drop all facts (about states that are gone)"""
    run.ghost["amap"] = {"keys": [], "facts": [], "pairs": []}


class St:
    """one (immutable) state of a map"""
    __slots__ = ("dom", "rank", "cols", "count", "total", "lo", "hi", "nrem", "last")

    def copy(self, **k):
        s = St()
        for n in St.__slots__:
            setattr(s, n, k.get(n, getattr(self, n)))
        return s


class AMap(ModelObj):
    pytypes = (collections.OrderedDict,)

    def __init__(self, I, cols, mkval, split, measure=None, guard=None):
        """cols: name -> z3 sort"""
        self.cols, self.mkval, self.split, self.measure, self.guard = cols, mkval, split, measure, guard
        self.oid = None
        I.oid(self)
        self.st = None
        self.arbitrary(I)

    # -- states ----------------------------------------------------------------------------------
    def arbitrary(self, I, base="m"):
        run = I.run
        s = St()
        s.dom = run.fresh(z3.ArraySort(V, z3.BoolSort()), base + "_dom")
        s.rank = run.fresh(z3.ArraySort(V, z3.IntSort()), base + "_rank")
        s.cols = {n: run.fresh(z3.ArraySort(V, so), base + "_" + n) for n, so in self.cols.items()}
        for n in ("count", "total", "lo", "hi"):
            setattr(s, n, run.fresh(z3.IntSort(), base + "_" + n))
        s.nrem = z3.IntVal(0)
        s.last = run.fresh(V, base + "_last")
        self.st = s
        self.wf(I, s)

    def wf(self, I, s):
        """theorems about finite maps with non-negative measure"""
        run = I.run
        size = s.cols.get(self.measure)
        run.assume(s.count >= 0)
        run.assume(s.total >= 0)
        run.assume(z3.Implies(s.count == 0, s.total == 0))
        if size is not None:
            add_fact(run, lambda k: z3.Implies(s.dom[k], z3.And(size[k] >= 0, s.total >= size[k], s.count >= 1, s.lo < s.rank[k], s.rank[k] < s.hi,
                                                                z3.Implies(s.count == 1, s.total == size[k]))))
            add_pair(run, lambda k, j: z3.Implies(z3.And(k != j, s.dom[k], s.dom[j]),
                                                  z3.And(s.total >= size[k] + size[j], s.count >= 2, s.rank[k] != s.rank[j])))
        else:
            add_fact(run, lambda k: z3.Implies(s.dom[k], z3.And(s.count >= 1, s.lo < s.rank[k], s.rank[k] < s.hi)))
            add_pair(run, lambda k, j: z3.Implies(z3.And(k != j, s.dom[k], s.dom[j]), z3.And(s.count >= 2, s.rank[k] != s.rank[j])))

    def access(self, I, write):
        if self.guard is not None:
            self.guard.access(I, self, write)
        if write:
            I.note(("model", I.oid(self)), self)

    # -- value mapping ---------------------------------------------------------------------------
    def key(self, I, k):
        return name_key(I.run, I.toV(k))

    def keyval(self, kt):
        return Sym("str", None, (("v", kt),))

    def value(self, I, kt):
        return self.mkval(I, {n: z3.Select(a, kt) for n, a in self.st.cols.items()}, kt)

    # -- single operations -----------------------------------------------------------------------
    def put(self, I, kt, v):
        run, s = I.run, self.st
        new = self.split(I, v)
        if self.measure is not None and not run.valid(new[self.measure] >= 0):
            raise Unsupported("negative size stored")
        present = run.branch(s.dom[kt])
        cols = {n: z3.Store(a, kt, new[n]) for n, a in s.cols.items()}
        m = new[self.measure] if self.measure else z3.IntVal(0)
        if present:
            old = s.cols[self.measure][kt] if self.measure else z3.IntVal(0)
            self.st = s.copy(cols=cols, total=s.total - old + m)
        else:
            self.st = s.copy(cols=cols, dom=z3.Store(s.dom, kt, z3.BoolVal(True)), rank=z3.Store(s.rank, kt, s.hi), hi=s.hi + 1,
                             count=s.count + 1, total=s.total + m)

    def remove(self, I, kt):
        s = self.st
        m = s.cols[self.measure][kt] if self.measure else z3.IntVal(0)
        self.st = s.copy(dom=z3.Store(s.dom, kt, z3.BoolVal(False)), count=s.count - 1, total=s.total - m, nrem=s.nrem + 1, last=kt)

    def contains(self, I, k):
        self.access(I, False)
        return mk("bool", self.st.dom[self.key(I, k)])

    def getitem(self, I, k):
        self.access(I, False)
        kt = self.key(I, k)
        if not I.run.branch(self.st.dom[kt]):
            I.raise_(KeyError, "key")
        return self.value(I, kt)

    def setitem(self, I, k, v):
        self.access(I, True)
        self.put(I, self.key(I, k), v)

    def delitem(self, I, k):
        self.access(I, True)
        kt = self.key(I, k)
        if not I.run.branch(self.st.dom[kt]):
            I.raise_(KeyError, "key")
        self.remove(I, kt)

    def truth(self, I):
        self.access(I, False)
        return self.st.count > 0

    def length(self, I):
        self.access(I, False)
        return Sym("int", self.st.count)

    m___len__ = length

    def m___contains__(self, I, k):
        return self.contains(I, k)

    def m_get(self, I, k, default=None):
        self.access(I, False)
        kt = self.key(I, k)
        return self.value(I, kt) if I.run.branch(self.st.dom[kt]) else default

    def m_pop(self, I, k, *default):
        self.access(I, True)
        kt = self.key(I, k)
        if not I.run.branch(self.st.dom[kt]):
            if default:
                return default[0]
            I.raise_(KeyError, "key")
        v = self.value(I, kt)
        self.remove(I, kt)
        return v

    def m_setdefault(self, I, k, v=None):
        self.access(I, True)
        kt = self.key(I, k)
        if not I.run.branch(self.st.dom[kt]):
            self.put(I, kt, v)
        return self.value(I, kt)

    def some_key(self, I, fact=None):
        """a key of the (non-empty) map, satisfying fact(k, key) for all other keys k"""
        s = self.st
        km = I.run.fresh(V, "key")
        I.run.assume(s.dom[km])
        name_key(I.run, km)
        if fact is not None:
            add_fact(I.run, lambda k: z3.Implies(s.dom[k], fact(k, km)))
        return km

    def m_popitem(self, I, last=True):
        self.access(I, True)
        if not I.run.branch(self.st.count > 0):
            I.raise_(KeyError, "dictionary is empty")
        s = self.st
        if I.decide(last):
            km = self.some_key(I, lambda k, m: s.rank[k] <= s.rank[m])
        else:
            km = self.some_key(I, lambda k, m: s.rank[k] >= s.rank[m])
        v = self.value(I, km)
        self.remove(I, km)
        return (self.keyval(km), v)

    def m_move_to_end(self, I, k, last=True):
        self.access(I, True)
        kt = self.key(I, k)
        s = self.st
        if not I.run.branch(s.dom[kt]):
            I.raise_(KeyError, "key")
        if I.decide(last):
            self.st = s.copy(rank=z3.Store(s.rank, kt, s.hi), hi=s.hi + 1)
        else:
            self.st = s.copy(rank=z3.Store(s.rank, kt, s.lo), lo=s.lo - 1)

    def m_clear(self, I):
        self.access(I, True)
        s = self.st
        self.st = s.copy(dom=z3.K(V, z3.BoolVal(False)), count=z3.IntVal(0), total=z3.IntVal(0), nrem=s.nrem + s.count)

    def m_items(self, I):
        return AView(self, "items")

    def m_values(self, I):
        return AView(self, "values")

    def m_keys(self, I):
        return AView(self, "keys")

    def comp(self, I, n, env, kind):
        return AComp(I, AView(self, "keys"), n, env, kind)

    def m_minmax(self, I, is_max, k):
        return AView(self, "keys").m_minmax(I, is_max, k)

    def iterate(self, I, cb):
        AView(self, "keys").iterate(I, cb)

    def for_loop(self, I, s, env):
        AView(self, "keys").for_loop(I, s, env)

    # -- loops -----------------------------------------------------------------------------------
    def snapshot(self):
        return self.st

    def havoc(self, I):
        run = I.run
        s0 = self.st
        s = St()
        s.dom = run.fresh(s0.dom.sort(), "dom")
        s.rank = run.fresh(s0.rank.sort(), "rank")
        s.cols = {n: run.fresh(a.sort(), n) for n, a in s0.cols.items()}
        for n in ("count", "total", "lo", "hi", "nrem"):
            setattr(s, n, run.fresh(z3.IntSort(), n))
        s.last = run.fresh(V, "last")
        self.st = s
        self.wf(I, s)

    def loop_candidates(self, I, s0, nums, guards=()):
        out = []
        run = I.run
        size0 = s0.cols.get(self.measure)

        def plain(name, f):
            out.append((name, lambda stage: [f()], lambda: [f()]))

        def forall(name, f):
            def goal(stage):
                return [f(generic(run, 0))]

            def asm():
                s = self.st
                add_fact(run, lambda k: f(k, s))
                return []
            out.append((name, goal, asm))

        def forall2(name, f):
            def goal(stage):
                return [f(generic(run, 0), generic(run, 1))]

            def asm():
                s = self.st
                add_pair(run, lambda k, j: f(k, j, s))
                return []
            out.append((name, goal, asm))

        def sub(k, s=None):
            s = s or self.st
            return z3.Implies(s.dom[k], z3.And(s0.dom[k], s.rank[k] == s0.rank[k], *[s.cols[n][k] == s0.cols[n][k] for n in s.cols]))
        forall("submap", sub)
        plain("total<=", lambda: z3.And(self.st.total <= s0.total, self.st.count <= s0.count, self.st.lo == s0.lo, self.st.hi == s0.hi))
        plain("not empty", lambda: self.st.count > 0)
        plain("nrem>=", lambda: self.st.nrem >= s0.nrem)
        plain("unchanged or removed", lambda: z3.If(self.st.nrem == s0.nrem,
                                                    z3.And(self.st.dom == s0.dom, self.st.total == s0.total, self.st.count == s0.count, self.st.last == s0.last),
                                                    z3.And(s0.dom[self.st.last], z3.Not(self.st.dom[self.st.last]))))

        def gone(s, k):
            return z3.And(s0.dom[k], z3.Not(s.dom[k]))
        orders = {"oldest first": lambda k, j: s0.rank[k] < s0.rank[j], "newest first": lambda k, j: s0.rank[k] > s0.rank[j]}
        if size0 is not None:
            orders["largest first"] = lambda k, j: size0[k] >= size0[j]
            orders["smallest first"] = lambda k, j: size0[k] <= size0[j]
        for n, o in orders.items():
            def order(k, j, s=None, o=o):
                s = s or self.st
                return z3.Implies(z3.And(gone(s, k), s.dom[j]), o(k, j))
            forall2(n, order)

            def lastf(k, s=None, o=o):
                s = s or self.st
                return z3.Implies(z3.And(gone(s, k), k != s.last, s.nrem > s0.nrem), o(k, s.last))
            forall(n + " (last)", lastf)
        for n, cur in nums:
            e = nums_entry(n, self, cur)
            plain(f"{n} follows the total", lambda cur=cur, e=e: real_term(cur()) - z3.ToReal(self.st.total) == e - z3.ToReal(s0.total))
        if size0 is not None:
            plain("removals count", lambda: z3.Implies(self.st.nrem > s0.nrem, self.st.total + size0[self.st.last] <= s0.total))
            for i, g in enumerate(guards):
                gt = real_term(g)
                plain(f"needed for {i}", lambda gt=gt: z3.Implies(self.st.nrem > s0.nrem, z3.ToReal(self.st.total + size0[self.st.last]) >= gt))
        return out


def nums_entry(n, m, cur):
    return real_term(cur())


class AView(ModelObj):
    def __init__(self, m, kind):
        self.m, self.kind = m, kind

    def elem(self, I, kt):
        if self.kind == "keys":
            return self.m.keyval(kt)
        if self.kind == "values":
            return self.m.value(I, kt)
        return (self.m.keyval(kt), self.m.value(I, kt))

    def comp(self, I, n, env, kind):
        return AComp(I, self, n, env, kind)

    def length(self, I):
        return self.m.length(I)

    def truth(self, I):
        return self.m.truth(I)

    def contains(self, I, x):
        if self.kind != "keys":
            raise Unsupported("membership in values of an unbounded map")
        return self.m.contains(I, x)

    def iterate(self, I, cb):
        """only an empty map can be iterated"""
        self.m.access(I, False)
        if not I.run.branch(self.m.st.count > 0):
            return
        raise Unsupported("iteration over a map of unbounded size")

    def term_fn(self, I, fn, nonempty=False):
        """fn(element) as a function of the key"""
        e = I.run.fresh(V, "e")
        if nonempty:  # any of the keys
            name_key(I.run, e)
            I.run.assume(self.m.st.dom[e])
        n = I.run.splits()
        v = fn(self.elem(I, e))
        if I.run.splits() != n:
            raise Unsupported("case split inside an aggregate over an unbounded map")
        return e, v

    def m_sum(self, I, fn=None):
        self.m.access(I, False)
        e, v = self.term_fn(I, fn or (lambda x: x))
        if isinstance(v, (int, float)):
            return mk("int", self.m.st.count * int(v)) if isinstance(v, int) else self.bad()
        size = self.m.st.cols.get(self.m.measure)
        if size is not None and is_num(v) and z3.is_true(z3.simplify(real_term(v) == z3.ToReal(size[e]))):
            return Sym("int", self.m.st.total)
        self.bad()

    def bad(self):
        raise Unsupported("aggregate over an unbounded map")

    def m_minmax(self, I, is_max, k, fn=None):
        self.m.access(I, False)
        fn = fn or (lambda x: x)
        m, s = self.m, self.m.st
        if not I.run.branch(s.count > 0):
            if "default" in k:
                return k["default"]
            I.raise_(ValueError, "arg is an empty sequence")
        key = k.get("key")

        def rank_of(x):
            v = fn(x)
            if key is not None:
                v = I.call(key, [v])
            if isinstance(v, tuple):
                v = v[0]
            if not is_num(v):
                raise Unsupported("order of an aggregate over an unbounded map")
            return Sym("real", real_term(v))
        e, t = self.term_fn(I, rank_of, True)

        def T(kt):
            return z3.substitute(t.t, (e, kt))
        km = m.some_key(I, (lambda j, b: T(j) <= T(b)) if is_max else (lambda j, b: T(j) >= T(b)))
        return fn(self.elem(I, km))

    def for_loop(self, I, s, env):
        """accumulation loops: acc += size, acc += 1"""
        run = I.run
        self.m.access(I, False)
        before = dict(env.vars)
        e = run.fresh(V, "e")
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        accs = {}
        for n in names:
            if n in env.vars and is_num(env.vars[n]):
                accs[n] = Sym("real", run.fresh(z3.RealSort(), n))
                env.vars[n] = accs[n]
            else:
                env.vars[n] = Poison(f"{n} is assigned in a loop over an unbounded map")
        log = {}
        run.writelogs.append(log)
        nd = run.splits()
        try:
            I.assign(s.target, self.elem(I, e), env)
            I.exec_block(s.body, env)
        except (BreakSig, ReturnSig, ContinueSig, PyExc):
            raise Unsupported("control flow in a loop over an unbounded map")
        finally:
            run.writelogs.remove(log)
        if run.splits() != nd or any(t[0] != "local" for t in log):
            if run.branch(self.m.st.count > 0):
                raise Unsupported("loop over a map of unbounded size")
            env.vars.clear()
            env.vars.update(before)
            return
        size = self.m.st.cols.get(self.m.measure)
        for n, a in accs.items():
            d = z3.simplify(real_term(env.vars[n]) - a.t)
            b = before[n]
            if size is not None and z3.is_true(z3.simplify(d == z3.ToReal(size[e]))):
                env.vars[n] = I.binop(ast.Add(), b, Sym("int", self.m.st.total))
            elif z3.is_true(z3.simplify(d == 1)):
                env.vars[n] = I.binop(ast.Add(), b, Sym("int", self.m.st.count))
            elif z3.is_true(z3.simplify(d == 0)):
                env.vars[n] = b
            else:
                env.vars[n] = Poison("accumulator over an unbounded map")
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                env.vars.pop(n.id, None)


class AComp(ModelObj):
    """generator/list comprehension over a view"""
    def __init__(self, I, view, n, env, kind):
        self.view, self.n, self.env = view, n, env

    def fn(self, I):
        g = self.n.generators[0]
        if g.ifs:
            raise Unsupported("filter over an unbounded map")

        def f(x):
            e2 = Env(self.env.globs, self.env, self.env.fn)
            I.assign(g.target, x, e2)
            return I.eval(self.n.elt, e2)
        return f

    def m_sum(self, I):
        return self.view.m_sum(I, self.fn(I))

    def m_minmax(self, I, is_max, k):
        return self.view.m_minmax(I, is_max, k, self.fn(I))

    def length(self, I):
        if self.n.generators[0].ifs:
            raise Unsupported("filter over an unbounded map")
        return self.view.length(I)

    def truth(self, I):
        return self.view.truth(I)

    def iterate(self, I, cb):
        self.view.iterate(I, cb)


# ---------------------------------------------------------------------------------------------
# monitors
# ---------------------------------------------------------------------------------------------
class Monitor:
    """state protected by a lock: arbitrary (within the invariant) whenever the lock is not held.

    concurrent: other threads act whenever the lock is free. Taking the lock and reading without it yield an
    arbitrary state satisfying the invariant; releasing it is an obligation to re-establish the invariant; writing without it
    is a violation."""
    def __init__(self, obj, fields, arbitrary, invariant, concurrent=True):
        self.obj, self.fields, self.arbitrary, self.invariant, self.concurrent = obj, set(fields), arbitrary, invariant, concurrent
        self.held = 0
        self.off = 0
        self.acquisitions = 0
        self.racy = None

    def quiet(self):
        return self.off or not self.concurrent

    def havoc(self, I):
        self.off += 1
        if self.concurrent:
            forget(I.run)
        try:
            self.arbitrary(I, self.obj)
        finally:
            self.off -= 1

    def on_read(self, I, o, name):
        if not self.held and not self.quiet():
            if self.racy is not None:
                v = self.racy(I, o, name)
                if v is not None:
                    return v
            self.havoc(I)
        v = o.fields[name]
        if isinstance(v, Poison):
            raise Unsupported(f"field {name}: {v.why}")
        return v

    def on_write(self, I, o, name, v):
        if not self.held and not self.quiet():
            I.run.check("shared state is written only under the lock", False)

    def access(self, I, m, write):
        if self.held or self.quiet():
            return
        if write:
            I.run.check("shared state is written only under the lock", False)
        else:
            m.arbitrary(I)

    def acquired(self, I):
        self.held += 1
        self.acquisitions += 1
        if not self.quiet():
            self.havoc(I)

    def released(self, I):
        if not self.quiet():
            off = self.off
            self.off = off + 1
            try:
                self.invariant(I, self.obj)
            finally:
                self.off = off
        self.held -= 1


class MonitorLock(ModelObj):
    def __init__(self, mon, reentrant=False):
        self.mon, self.reentrant = mon, reentrant
        self.n = 0

    def enter(self, I):
        self.m_acquire(I)
        return True

    def exit(self, I, e):
        self.m_release(I)
        return False

    def m_acquire(self, I, *a, **k):
        if self.n and not self.reentrant:
            I.run.check("no operation blocks itself", False)
        if not self.n:
            self.mon.acquired(I)
        self.n += 1
        return True

    def m_release(self, I):
        if self.n <= 0:
            I.raise_(RuntimeError, "release unlocked lock")
        self.n -= 1
        if not self.n:
            self.mon.released(I)

    def m_locked(self, I):
        return self.n > 0

    def m___enter__(self, I):
        self.m_acquire(I)
        return True

    def m___exit__(self, I, *a):
        self.m_release(I)
