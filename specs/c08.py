"""C08 Eviction order, minimality and strict mode of the in-memory cache."""
from pyvc import memstate
from pyvc.harness import harness
from earthkit.regrid.utils import memcache
from specs.memcache import config_module, Evict, LIMITED, LoadError, Mat, Op, POLICIES, Settings, make_cache, settings, size_fn, start

PROPERTY = "C08"


class Watched(Op):
    """remembers the state of the cache when loading starts"""

    def create_from_entry(self, entry):
        self.at_load = self.E.mark(self.c)
        return super().create_from_entry(entry)


@harness(timeout=150, setup=memstate.setup_eviction, split={"held": 4, "a.outcome": 4})
def lookup(S):
    """evictions of one lookup from any state"""
    c = make_cache(S, start(S), False, S.choice("held", *POLICIES))
    E = Evict.of(S)
    how = S.peek(c, "policy").name
    if not S.symbolic:
        E.how = how
    limit = S.peek(c, "max_mem")
    strict = S.peek(c, "strict")
    s0 = E.mark(c)
    op = Watched(S, "a")
    op.E, op.c, op.at_load = E, c, None
    r = op.run(c)
    s2 = E.mark(c)
    if how == "unlimited":
        E.nothing_gone("unlimited evicts nothing", s0, s2)
    if how in LIMITED:
        s1 = op.at_load
        if s1 is None:
            if r is ValueError:
                S.check("only strict mode refuses a matrix", strict)
                S.check("only a matrix that does not fit is refused", op.est > limit)
                S.check("a refused matrix is not loaded", op.loads == 0)
            E.eviction_order("evictions follow the policy", s0, s2, how)
            if op.finds == 0:
                E.nothing_gone("a hit evicts nothing", s0, s2)
            else:
                E.needed("no needless eviction", s0, s2, limit - op.est)
        else:
            S.check("a matrix is loaded at most once", op.loads <= 1)
            E.eviction_order("evictions follow the policy", s0, s1, how)
            E.needed("no needless eviction before loading", s0, s1, limit - op.est)
            if op.outcome != "missing":
                if op.est <= limit:
                    S.check("room is made before loading", S.either(E.total_of(s1) + op.est <= limit, E.empty(s1)))
                else:
                    E.nothing_gone("nothing is evicted for what cannot fit", s0, s1)
                    S.check("strict mode refuses what does not fit", not strict)
                if op.outcome == "found":
                    S.check("a loaded matrix is returned", r is not ValueError and S.same(r, (op.mat, op.shape)))
            else:
                E.nothing_gone("nothing is evicted for a matrix that does not exist", s0, s1)
            E.eviction_order("evictions after loading follow the policy", s1, s2, how)
            E.needed2(s1, s2, op, limit) if not S.symbolic else S.needed("no needless eviction after loading", s1, s2, limit, size_fn(S)(op.mat))
    S.check("other failures are not refusals", r is not LoadError or op.outcome in ("load fails", "search fails"))


def needed2(self, s1, s2, op, limit):
    """after loading the new matrix may have to go as well"""
    total = self.total_of(s2)
    g = self.gone(s1, s2)
    if not g:
        return
    n = op.mat.nbytes
    stayed = any(v.data[0] is op.mat for _, v in s2)
    if self.how == "lru":
        last = g[-1][1].size if stayed else n
    else:
        last = min([v.size for _, v in g] + ([] if stayed else [n]))
    self.S.check("no needless eviction after loading", total + last >= limit)


Evict.needed2 = needed2


@harness(timeout=150, setup=memstate.setup_eviction, split={"held": 4})
def use(S):
    """a lookup that finds its key makes it the most recently used; a new one comes last"""
    c = make_cache(S, start(S), False, S.choice("held", *POLICIES))
    E = Evict.of(S)
    s0 = E.mark(c)
    op = Op(S, "a", fails=False)
    r = op.run(c)
    s1 = E.mark(c)
    E.recency("order of use", s0, s1, E.key_of(s1, r))


@harness(timeout=150, setup=memstate.setup_eviction, split={"held": 4, "policy": 3})
def shrink(S):
    """evictions when the limit or the policy changes"""
    st = start(S)
    c = make_cache(S, st, False, S.choice("held", *POLICIES))
    E = Evict.of(S)
    s0 = E.mark(c)
    p = S.choice("policy", "lru", "largest", "unlimited")
    m = S.int("new max", 1, 10**9, gen=lambda r: r.choice([1, 10, 30, 50, 100, 101, 200]))
    st.values = Settings(m, p, S.bool("strict")).values
    c.update()
    s1 = E.mark(c)
    if not S.symbolic:
        E.how = p
    if p == "unlimited":
        E.nothing_gone("unlimited evicts nothing", s0, s1)
    else:
        E.eviction_order("evictions follow the policy", s0, s1, p)
        E.needed("no needless eviction", s0, s1, m)
        S.check("shrinks below the limit", S.either(E.total_of(s1) <= m, E.empty(s1)))


@harness(symbolic=False, samples=200, search_s=4)
def histories(S):
    """run time: against a reference cache, through results only (which lookups load)"""
    p = S.choice("policy", "lru", "largest", "unlimited")
    m = S.int("max", 10, 300)
    strict = S.bool("strict")
    st = Settings(m, p, strict)
    S.patch(memcache, "CONFIG", st)
    S.patch(config_module, "CONFIG", st)
    c = memcache.MemoryCache(size_fn=size_fn(S))
    sizes = [S.int("size", 1, 120) for i in range(8)]
    wrong = S.bool("estimates may be wrong")
    ests = [s if not wrong or S.bool("exact") else S.int("est", 0, 150) for s in sizes]
    S.assume(len(set(sizes)) == 8)
    ref = []                                   # indices, least recently used first

    def reduce(aim):
        while ref and sum(sizes[i] for i in ref) >= aim:
            ref.remove(ref[0] if p == "lru" else max(ref, key=lambda i: sizes[i]))
    for step in range(S.int("steps", 1, 30)):
        i = S.int("key", 0, 7)
        mat = Mat(sizes[i])
        loads = []

        def load(e):
            loads.append(1)
            return (mat, (1,))
        try:
            r = c.get("k%d" % i, create=lambda *a: load(None), find_entry=lambda *a: {"_raw": {"memory": ests[i]}}, create_from_entry=load)
        except ValueError:
            r = None
        if i in ref:
            ref.remove(i)
            ref.append(i)
            S.check("a cached matrix is not loaded again", not loads and r is not None)
            continue
        refused = False
        if p != "unlimited":
            total = sum(sizes[j] for j in ref)
            if total + ests[i] > m and ests[i] <= m:
                reduce(m - ests[i])
            refused = strict and m - sum(sizes[j] for j in ref) < ests[i]
        if refused:
            S.check("strict mode refuses what does not fit, without loading", r is None and not loads)
            continue
        S.check("returned to the caller", r is not None and r[0] is mat and len(loads) == 1)
        ref.append(i)
        if p != "unlimited":
            reduce(m)
        info = c.info()
        S.check("what is cached is what the policy keeps", info.count == len(ref) and info.currsize == sum(sizes[j] for j in ref))
