"""Shared by C06-C09: arbitrary states of the in-memory cache, and its representation invariant."""
import sys
import threading

from earthkit.regrid.utils import config as config_module
from earthkit.regrid.utils import memcache
from earthkit.regrid.utils.memcache import MemoryCache

MAX, POLICY, STRICT = "maximum-weights-memory-cache-size", "weights-memory-cache-policy", "weights-memory-cache-strict-mode"
LIMITED = ("lru", "largest")
POLICIES = ("off", "unlimited", "lru", "largest")


class Settings:
    """stand-in for the settings: any combination of values"""

    def __init__(self, max_mem, policy, strict):
        self.values = {MAX: max_mem, POLICY: policy, STRICT: strict}
        self.callbacks = []

    def get(self, name, default=None):
        return self.values[name]

    def on_change(self, callback):
        self.callbacks.append(callback)


class Mat:
    """a matrix: only its identity and size matter"""

    def __init__(self, nbytes, tag=None):
        self.nbytes = nbytes
        self.tag = tag


class LoadError(Exception):
    pass


def size_fn(S):
    if S.symbolic:
        def f(m):
            n = S.pure_int("size", m)
            S.suppose(n >= 0)
            return n
        return f
    return lambda m: m.nbytes


def sz(r):
    return r.choice([0, 1, 5, 10, 10, 20, 35, 50, 100, 101])


def limit(r):
    return r.choice([1, 10, 30, 50, 51, 100, 101, 200])


def settings(S, name, policies=POLICIES):
    p = S.choice(name + ".policy", *policies)
    if p in LIMITED:
        m = S.int(name + ".max", 1, None, gen=limit)
    else:
        m = S.choice(name + ".max kind", 0, None, 500)
    return Settings(m, p, S.bool(name + ".strict"))


def any_settings(S, name):
    """including combinations that are refused"""
    p = S.choice(name + ".policy", *POLICIES)
    k = S.choice(name + ".limit", "positive", "positive", "positive", "zero", "none") if not S.symbolic else S.choice(name + ".limit", "positive", "zero", "none")
    m = S.int(name + ".max", 1, None, gen=limit) if k == "positive" else 0 if k == "zero" else None
    return Settings(m, p, S.bool(name + ".strict"))


def start(S):
    """the settings the cache is constructed with; the state is arbitrary afterwards"""
    return Settings(500, "largest", False) if S.symbolic else settings(S, "s")


def make_cache(S, st, concurrent=False, held=None):
    """a cache with arbitrary content; held: the policy found by the first operation that takes the lock"""
    S.patch(memcache, "CONFIG", st)
    S.patch(config_module, "CONFIG", st)
    c = MemoryCache(size_fn=size_fn(S))
    if S.symbolic:
        S.cache_state(c, concurrent, held)
    else:
        n = S.int("preload", 0, 8, gen=lambda r: r.choice([0, 1, 2, 3, 5, 8]))
        for i in range(n):
            k = "k%d" % S.int("pk", 0, 5)
            m = Mat(S.int("psize", 0, 300, gen=sz))
            e = {"_raw": {"memory": m.nbytes}}
            try:
                c.get(k, create=lambda *a: (m, (k, m)), find_entry=lambda *a: e, create_from_entry=lambda x: (m, (k, m)))
            except ValueError:
                pass
    return c


def invariant(S, c):
    """what holds whenever no operation is in progress"""
    S.alone()
    items = S.peek(c, "items")
    cur = S.peek(c, "curr_mem")
    total = sum(v.size for v in items.values())
    S.check("the reported size is the total of the cached sizes", cur == total)
    f = size_fn(S)
    S.forall_items("every cached size is the size of its matrix", items, lambda k, v: v.size == f(v.data[0]))
    S.forall_items("only matrices are cached", items, lambda k, v: v.data[0] is not None)
    p = S.peek(c, "policy").name
    m = S.peek(c, "max_mem")
    if p in LIMITED:
        S.check("a limited policy has a limit", m is not None and m > 0)
        S.check("the total never exceeds the limit", total <= m)
    elif p == "off":
        S.check("nothing is cached with policy off", len(items) == 0)
        S.check("the reported size is 0 with policy off", cur == 0)


class Op:
    """a lookup: found or not, size as estimated or not, loading may fail"""

    def __init__(self, S, name, fails=True):
        self.S = S
        self.key = S.text(name + ".key", gen=lambda r: "k%d" % r.randint(0, 6))
        self.outcome = S.choice(name + ".outcome", "found", "missing", "load fails", "search fails") if fails else "found"
        self.est = S.int(name + ".estimate", 0, None, gen=sz)
        self.mat = S.opaque(name + ".matrix") if S.symbolic else Mat(S.int(name + ".size", 0, None, gen=sz) if S.bool(name + ".wrong estimate") else self.est)
        if S.symbolic:
            S.suppose(S.pure_int("size", self.mat) >= 0)
            S.suppose(self.mat is not None)
        self.shape = S.opaque(name + ".shape") if S.symbolic else S.token(name + ".shape")
        self.entry = {"_raw": {"memory": self.est}}
        self.loads = 0
        self.finds = 0

    def find_entry(self, *args):
        self.finds += 1
        if self.outcome == "search fails":
            raise LoadError("search")
        return None if self.outcome == "missing" else self.entry

    def create_from_entry(self, entry):
        if entry is None:
            return (None, None)
        if self.outcome == "load fails":
            raise LoadError("load")
        self.loads += 1
        return (self.mat, self.shape)

    def create(self, *args):
        return self.create_from_entry(self.find_entry(*args))

    def run(self, c):
        """-> data, or the exception class"""
        try:
            return c.get(self.key, create=self.create, find_entry=self.find_entry, create_from_entry=self.create_from_entry)
        except LoadError:
            return LoadError
        except ValueError:
            return ValueError


# ---------------------------------------------------------------------------------------------
# run time: every schedule in which the second operation runs completely at one point of the first
# ---------------------------------------------------------------------------------------------
def points(op):
    """number of line events of op inside the cache's code"""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.endswith("memcache.py") else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        op()
    finally:
        sys.settrace(old)
    return n[0]


def interleave(a, b, at):
    """run a; at its at-th line inside the cache's code let b run (until it finishes or blocks)"""
    n = [0]
    t = threading.Thread(target=b, daemon=True)

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == at:
                t.start()
                t.join(0.02)
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.endswith("memcache.py") else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        a()
    finally:
        sys.settrace(old)
    if n[0] < at:
        t.start()
    t.join(5)
    return not t.is_alive()


# ---------------------------------------------------------------------------------------------
# eviction: the same vocabulary at run time (symbolic side: pyvc/memstate.py)
# ---------------------------------------------------------------------------------------------
class Evict:
    @staticmethod
    def of(S):
        return S if S.symbolic else Evict(S)

    def __init__(self, S):
        self.S = S

    def mark(self, c):
        return list(c.items.items())

    def gone(self, s0, s1):
        now = dict(s1)
        return [(k, v) for k, v in s0 if k not in now]

    def kept(self, s0, s1):
        now = dict(s1)
        return [(k, v) for k, v in s0 if k in now]

    def eviction_order(self, label, s0, s1, how):
        g, k = self.gone(s0, s1), self.kept(s0, s1)
        if g and k:
            if how == "lru":
                ok = g == s0[:len(g)]
            else:
                ok = how == "largest" and min(v.size for _, v in g) >= max(v.size for _, v in k)
            self.S.check(label, ok)

    def nothing_gone(self, label, s0, s1):
        self.S.check(label, not self.gone(s0, s1))

    def needed(self, label, s0, s1, aim):
        g = self.gone(s0, s1)
        if g:
            # the last one to go: the most recently used, or the smallest
            self.S.check(label, any(self.total_of(s1) + v.size >= aim for _, v in ([g[-1]] if self.how == "lru" else [min(g, key=lambda x: x[1].size)])))

    def recency(self, label, s0, s1, used=None):
        a = [k for k, _ in s0 if k != used and k in dict(s1)]
        b = [k for k, _ in s1 if k != used and k in dict(s0)]
        self.S.check(label + ": order of the others", a == b)
        if used is not None and used in dict(s1):
            self.S.check(label + ": the used one is last", s1[-1][0] == used)

    def key_of(self, s, data):
        return next((k for k, v in s if v.data is data), None)

    def total_of(self, s):
        return sum(v.size for _, v in s)

    def empty(self, s):
        return not s
