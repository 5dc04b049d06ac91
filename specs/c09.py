"""C09 Settings changes reach the in-memory cache immediately."""
from pyvc import memstate
from pyvc.harness import harness
from earthkit.regrid.utils import config as config_module
from earthkit.regrid.utils import memcache
from earthkit.regrid.utils.config import Config
from specs.memcache import (Evict, LIMITED, MAX, Mat, POLICIES, POLICY, STRICT, Settings, any_settings, limit, make_cache, settings, size_fn, start, sz)

PROPERTY = "C09"
LEVEL_NOTE = "that every change of the effective settings notifies the observers is C14; here: the cache registers as an observer and its reaction to a notification from any state"


def effective(values):
    """what the cache works with: policies without a limit have none"""
    p = values[POLICY]
    if p == "off":
        return ("off", 0, False)
    if p == "unlimited":
        return ("unlimited", None, False)
    return (p, values[MAX], values[STRICT])


def uses(S, c, want, label):
    i = c.info()
    S.check(label + ": policy", i.policy == want[0])
    S.check(label + ": maximum size", i.maxsize == want[1] if want[1] is not None else i.maxsize is None)
    S.check(label + ": strict flag", S.peek(c, "strict") == want[2])


@harness(timeout=150, setup=memstate.setup_eviction, split={"held": 4, "new.policy": 4})
def notified(S):
    """reaction to a notification, from any state, through whatever was registered with the settings"""
    st = start(S)
    c = make_cache(S, st, False, S.choice("held", *POLICIES))
    E = Evict.of(S)
    S.check("the cache observes the settings", len(st.callbacks) == 1)
    old = (S.peek(c, "policy").name, S.peek(c, "max_mem"), S.peek(c, "strict"))
    s0 = E.mark(c)
    st.values = any_settings(S, "new").values
    bad = st.values[POLICY] in LIMITED and (st.values[MAX] is None or st.values[MAX] == 0)
    refused = False
    for f in st.callbacks:
        try:
            f()
        except ValueError:
            refused = True
    s1 = E.mark(c)
    S.check("a limited policy needs a limit, nothing else is refused", refused == bad)
    if refused:
        uses(S, c, old, "refused settings leave the previous ones in force")
        E.nothing_gone("refused settings leave the content", s0, s1)
        return
    new = effective(st.values)
    uses(S, c, new, "new settings are in force")
    if new[0] in LIMITED:
        S.check("the content fits the new limit", E.total_of(s1) <= new[1])
    if new[0] == "off":
        S.check("off empties the cache", E.empty(s1))
    if new[0] == "unlimited":
        E.nothing_gone("unlimited keeps everything", s0, s1)
    if new[0] == old[0] and new[1] == old[1] and new[2] == old[2] and (new[0] not in LIMITED or E.total_of(s0) < new[1]):
        E.nothing_gone("the content is kept when nothing relevant changed", s0, s1)
    if old[0] in LIMITED and new[0] == old[0] and new[1] == old[1]:
        if E.total_of(s0) < new[1]:
            E.nothing_gone("the content is kept when the limit is the same", s0, s1)


@harness(timeout=150, setup=memstate.setup_eviction)
def irrelevant(S):
    """a notification about anything else changes nothing"""
    st = start(S)
    c = make_cache(S, st, False, S.choice("held", *POLICIES))
    E = Evict.of(S)
    old = (S.peek(c, "policy").name, S.peek(c, "max_mem"), S.peek(c, "strict"))
    st.values = {POLICY: old[0], MAX: old[1], STRICT: old[2]}
    s0 = E.mark(c)
    i0 = c.info()
    for f in st.callbacks:
        f()
    s1 = E.mark(c)
    i1 = c.info()
    E.nothing_gone("the content is kept", s0, s1)
    E.recency("order of use", s0, s1)
    S.check("the statistics are kept", i0.hits == i1.hits and i0.misses == i1.misses and i0.count == i1.count and i0.currsize == i1.currsize)
    uses(S, c, old, "the settings stay in force")


@harness(symbolic=False, samples=150, search_s=5)
def real_settings(S):
    """run time: a real configuration, sets, resets and nested temporary blocks"""
    from earthkit.regrid.utils import config as cm
    import os
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "config.yaml")
        C = Config(None, dict(config_module.DEFAULTS))
        S.patch(memcache, "CONFIG", C)
        S.patch(config_module, "CONFIG", C)
        c = memcache.MemoryCache(size_fn=size_fn(S))

        def fill(n):
            for i in range(n):
                m = Mat(S.int("size", 0, 300, gen=sz))
                try:
                    c.get("k%d" % S.int("key", 0, 9), create=lambda *a: (m, 1), find_entry=lambda *a: {"_raw": {"memory": m.nbytes}}, create_from_entry=lambda e: (m, 1))
                except ValueError:
                    pass

        def check(what):
            vals = {k: C.get(k) for k in (POLICY, MAX, STRICT)}
            uses(S, c, effective(vals), what)
            i = c.info()
            if i.policy in LIMITED:
                S.check("fits after " + what, i.currsize <= i.maxsize)
            if i.policy == "off":
                S.check("empty after " + what, i.count == 0)

        def change(target):
            k = S.choice("what", "policy", "max", "strict", "other", "several", "reset")
            before = list(c.items)
            if k == "policy":
                target.set(POLICY, S.choice("p", *POLICIES))
            elif k == "max":
                target.set(MAX, limit(S.rng))
            elif k == "strict":
                target.set(STRICT, S.bool("b"))
            elif k == "other":
                target.set("url-download-timeout", "%ds" % S.int("n", 1, 9))
                S.check("contents kept when nothing relevant changed", list(c.items) == before)
            elif k == "several":
                target.set({POLICY: S.choice("p", *POLICIES), MAX: limit(S.rng), STRICT: S.bool("b")})
            else:
                target.reset(S.choice("r", POLICY, MAX, STRICT))
            check(k)

        def block(depth):
            for i in range(S.int("n", 1, 4)):
                fill(S.int("fill", 0, 4))
                if depth < 3 and S.int("nest", 0, 2) == 0:
                    how = S.choice("how", "args", "kwargs", "none")
                    a = {"args": (POLICY, S.choice("p", *POLICIES)), "kwargs": (), "none": ()}[how]
                    kw = {"maximum-weights-memory-cache-size": limit(S.rng)} if how == "kwargs" else {}
                    try:
                        with C.temporary(*a, **kw):
                            check("entering a temporary block")
                            block(depth + 1)
                            if S.int("raise", 0, 3) == 0:
                                raise KeyError("leave")
                    except KeyError as e:
                        if e.args != ("leave",):
                            raise
                    check("leaving a temporary block")
                else:
                    change(C)
        block(0)
