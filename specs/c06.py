"""C06 In-memory weights cache: accounting and memory bound under any schedule."""
from pyvc import memstate
from pyvc.harness import harness
from earthkit.regrid.utils.memcache import MemoryCache
from specs.memcache import any_settings, LIMITED, POLICIES, Op, interleave, invariant, make_cache, points, settings, start

PROPERTY = "C06"


def quiet_update(c):
    try:
        c.update()
    except ValueError:
        pass


@harness(timeout=150, setup=memstate.setup, split={"held": 4, "a.outcome": 4})
def lookup(S):
    """a lookup, other threads acting whenever the lock is free"""
    c = make_cache(S, start(S), True, S.choice("held", *POLICIES))
    op = Op(S, "a")
    op.run(c)
    invariant(S, c)


@harness(timeout=150, setup=memstate.setup, split={"held": 4, "new.policy": 4})
def settings_change(S):
    """a change of settings, accepted or refused"""
    st = start(S)
    c = make_cache(S, st, True, S.choice("held", *POLICIES))
    st.values = any_settings(S, "new").values
    quiet_update(c)
    invariant(S, c)


@harness(timeout=150, setup=memstate.setup)
def clear(S):
    c = make_cache(S, start(S), True)
    c.clear()
    invariant(S, c)
    i = (S.peek(c, "curr_mem"), len(S.peek(c, "items")))
    S.check("an emptied cache is empty", i[0] == 0 and i[1] == 0)


@harness(timeout=150, setup=memstate.setup)
def statistics(S):
    """what is reported is one state of the cache"""
    c = make_cache(S, start(S), True)
    i = c.info()
    S.alone()
    items = S.peek(c, "items")
    S.check("reported size is the total of the cached sizes", i.currsize == sum(v.size for v in items.values()))
    S.check("reported count is the number of cached matrices", i.count == len(items))
    S.check("reported maximum is the maximum", i.maxsize == S.peek(c, "max_mem"))
    S.check("reported policy is the policy", i.policy == S.peek(c, "policy").name)
    if i.policy in LIMITED:
        S.check("the reported size never exceeds the reported maximum", i.currsize <= i.maxsize)


@harness(timeout=150, setup=memstate.setup)
def initial(S):
    """a new cache satisfies the invariant"""
    from specs.memcache import config_module, memcache, size_fn
    st = settings(S, "s")
    S.patch(memcache, "CONFIG", st)
    S.patch(config_module, "CONFIG", st)
    c = MemoryCache(size_fn=size_fn(S))
    invariant(S, c)
    i = c.info()
    S.check("a new cache is empty", i.count == 0 and i.currsize == 0 and i.hits == 0 and i.misses == 0)
    S.check("a new cache uses the settings", i.policy == st.get("weights-memory-cache-policy"))


@harness(symbolic=False, samples=60, search_s=6)
def histories(S):
    """run time: random histories on one thread"""
    st = settings(S, "s")
    c = make_cache(S, st)
    for i in range(S.int("steps", 1, 12)):
        k = S.choice("step", "get", "get", "get", "set", "clear", "info")
        if k == "get":
            Op(S, "a").run(c)
        elif k == "set":
            st.values = any_settings(S, "new").values
            quiet_update(c)
        elif k == "clear":
            c.clear()
        x = c.info()
        invariant(S, c)
        S.check("reported size is the total of the cached sizes", x.currsize == sum(v.size for v in c.items.values()) and x.count == len(c.items))


@harness(symbolic=False, samples=12, search_s=6)
def schedules(S):
    """run time: one operation runs inside another, at every line"""
    kinds = ("get", "set", "clear", "info")
    ka, kb = S.choice("first", *kinds), S.choice("second", *kinds)
    seed = S.int("state", 0, 10**6)
    import random
    from pyvc.harness import NatS
    n = 1
    at = 1
    while at <= n:
        R = NatS(random.Random(seed))
        try:
            st = settings(R, "s")
            c = make_cache(R, st)
            seen = []

            def action(kind, name):
                if kind == "get":
                    o = Op(R, name)
                    return lambda: o.run(c)
                if kind == "set":
                    new = any_settings(R, name).values

                    def f():
                        st.values = new
                        quiet_update(c)
                    return f
                if kind == "clear":
                    return c.clear
                return lambda: seen.append(c.info())
            a, b = action(ka, "a"), action(kb, "b")
            if at == 1:
                R2 = NatS(random.Random(seed))
                n = 40
            done = interleave(a, b, at)
            S.check("no operation blocks itself", done)
            invariant(S, c)
            i = c.info()
            S.check("reported size and count after the schedule", i.currsize == sum(v.size for v in c.items.values()) and i.count == len(c.items))
            for x in seen:
                S.check("a report shows one state", (x.count > 0 or x.currsize == 0) and (x.policy not in LIMITED or x.currsize <= x.maxsize))
        finally:
            R.close()
        at += 1
