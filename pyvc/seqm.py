"""Sequences and inventories of unbounded length, and loops over them.

A loop over such a sequence is verified for one arbitrary iteration: the sequence is walked up to a limit (its length, or
the index where the loop is left).  When there is anything before the limit the body is run for an arbitrary index j below
it, which must not leave the loop; then, when the loop is left at index i, for i.  What is proved about j holds for every
earlier index because nothing else is known about j.  What iterations leave behind is only known through contributions:
an iteration may add to a list, or to a dictionary under its own element's key; any other state changed in the body is
unknown afterwards (reading it is unsupported).  Keys of an inventory are distinct (it is a dictionary)."""
import ast
import collections
import z3
from .core import *
from .core import V
from .interp import Poison, LoopInfo, MISSING
from .loops import find_holder, read, write, kind_of
from .models import builtin


class Seq(ModelObj):
    """unbounded sequence; make(I, index) gives an element (remembered per index)"""
    pytypes = (list,)

    def __init__(self, n, make, name="seq", keyed=False):
        self.n, self.make, self.name, self.keyed = n, make, name, keyed
        self.elems = {}              # index term id -> (index, element)
        self.loops = []              # (arbitrary earlier index or None, limit, exit index or None)
        self.base = self
        self.make_key = None

    def elem(self, I, i):
        k = i.get_id()
        if k not in self.elems:
            self.elems[k] = (i, self.make(I, i))
        return self.elems[k][1]

    def map(self, fn):
        r = Seq(self.n, lambda I, i: fn(I, self.elem(I, i), i), self.name, self.keyed)
        r.base = self.base
        r.loops = self.loops
        return r

    def iterate(self, I, cb):
        if getattr(self, "left", 1) == 0:
            return
        if getattr(self, "left", None) == 1:
            self.left = 0
        if I.unaware:
            raise NeedWhole("a sequence of unbounded length is needed as a whole")
        run = I.run
        run.ghost["seqloops"] = no = run.ghost.get("seqloops", 0) + 1
        key = ("seq", no, run.loc, tuple(run.decisions))
        info = run.ex.loops.setdefault(key, LoopInfo())
        watermark = run.objn
        leaves = run.choose(2) == 1
        limit = self.n
        i = None
        if leaves:
            i = run.fresh(z3.IntSort(), "at")
            run.assume(z3.And(i >= 0, i < self.n))
            limit = i
        loop = Loop(I, self, info, key)
        loop.start()
        j = None
        if run.branch(limit > 0):
            j = run.fresh(z3.IntSort(), "any")
            run.assume(z3.And(j >= 0, j < limit))
            x = self.elem(I, j)
            log = Log()
            run.writelogs.append(log)
            nw = effects(I)
            loop.element(j)
            try:
                cb(x)
            except (Unsupported, PathEnd, Restart):
                raise
            except Exception:
                # an iteration before the limit does not leave the loop
                run.writelogs.remove(log)
                loop.settle(log, watermark)
                raise PathEnd()
            run.writelogs.remove(log)
            loop.settle(log, watermark)
            loop.step()
            if effects(I) != nw:
                raise Unsupported("effects outside the program in a loop of unbounded length")
        loop.between()
        self.loops.append((j, limit, i))
        if leaves:
            x = self.elem(I, i)
            log = Log()
            run.writelogs.append(log)
            loop.element(i)
            try:
                cb(x)
            finally:
                run.writelogs.remove(log)
            # the loop is left in this iteration
            raise PathEnd()
        loop.end()

    def length(self, I):
        return mk("int", self.n)

    m___len__ = length

    def truth(self, I):
        return self.n > 0

    def once(self):
        """an iterator over it"""
        r = Seq(self.n, self.make, self.name, self.keyed)
        r.elems, r.loops, r.base = self.elems, self.loops, self.base
        r.left = 1
        return r

    def m_enumerate(self, I, st):
        return self.map(lambda I_, x, i: (mk("int", i + int_term(st)), x))

    def getitem(self, I, k):
        if isinstance(k, int) and k >= 0:
            if not I.run.branch(self.n > k):
                I.raise_(IndexError, "list index out of range")
            raise Unsupported("element of an unbounded sequence by number")
        raise Unsupported("index of an unbounded sequence")


def effects(I):
    """what is not recorded as a write of the program"""
    g = I.run.ghost
    fs = g.get("fs")
    return (getattr(fs, "nops", None), len(g.get("checked", ())), g.get("effects", 0))


def collection(o):
    return isinstance(o, (PDict, PList)) or isinstance(o, ModelObj) and hasattr(o, "loop_start")


class Log(dict):
    """what an iteration wrote, and what local names held before"""

    def __init__(self):
        super().__init__()
        self.old = {}


class Loop:
    """what earlier iterations may have changed"""

    def __init__(self, I, seq, info, key):
        self.I, self.seq, self.info, self.key = I, seq, info, key
        self.targets = []
        self.nums, self.alive = [], []

    def start(self):
        I = self.I
        self.holders = {}
        for t, k in self.info.writes.items():
            h = find_holder(I, t, None)
            if h is None:
                raise Unsupported("loop target lost")
            if t[0] in ("dict", "list", "model"):
                if t[0] == "dict":
                    AbsDict.begin(I, h, self.seq)
                elif t[0] == "list":
                    AbsList.begin(I, h, self.seq)
                elif hasattr(h, "loop_start"):
                    h.loop_start(I, self.seq)
                else:
                    raise Unsupported(f"{type(h).__name__} changed in a loop of unbounded length")
            self.targets.append((t, k, h))
            if k in ("int", "real", "bool"):
                self.holders[t] = h
        self.entries()
        self.poison()

    def entries(self):
        """numbers that iterations change: what is known of them is a conjunction of candidates, each proved inductive"""
        I, run = self.I, self.I.run
        self.entry = {}
        for t, h in list(self.holders.items()):
            v = read(I, t, self.holders)
            if not is_num(v) and not isinstance(v, bool) and not (isinstance(v, Sym) and v.kind == "bool"):
                self.info.writes[t] = "other"
                raise Restart(self.key[3])
            self.entry[t] = v
        nums = [t for t, k, h in self.targets if k in ("int", "real")]
        frames = {}
        for t in nums:
            e = self.holders[t]
            while t[0] == "local" and e is not None:
                for n, v in e.vars.items():
                    if is_num(v) and ("local", e.eid, n) not in self.info.writes and n not in frames:
                        frames[n] = v
                e = e.parent
        cands = []

        def cur(t):
            return real_term(read(I, t, self.holders))
        for a, t in enumerate(nums):
            x0 = self.entry[t]
            cands.append((f"{t}>=entry", lambda t=t, x0=x0: cur(t) >= real_term(x0)))
            cands.append((f"{t}<=entry", lambda t=t, x0=x0: cur(t) <= real_term(x0)))
            cands.append((f"{t}>=0", lambda t=t: cur(t) >= 0))
            for n, v in frames.items():
                cands.append((f"{t}<{n}", lambda t=t, v=v: cur(t) < real_term(v)))
                cands.append((f"{t}<={n}", lambda t=t, v=v: cur(t) <= real_term(v)))
                cands.append((f"{t}>={n}", lambda t=t, v=v: cur(t) >= real_term(v)))
            for u in nums[a + 1:]:
                d = real_term(x0) - real_term(self.entry[u])
                cands.append((f"{t}-{u}", lambda t=t, u=u, d=d: cur(t) - cur(u) == d))
        for n, f in cands:
            if n not in self.info.dead:
                if run.valid(f()):
                    self.alive.append((n, f))
                else:
                    self.info.dead.add(n)

    def step(self):
        bad = [n for n, f in self.alive if not self.I.run.valid(f())]
        if bad:
            self.info.dead.update(bad)
            raise Restart(self.key[3])

    def poison(self):
        for t, k, h in self.targets:
            if k in ("int", "real", "bool"):
                self.I.run.imprecise = True
                write(t, self.holders, Sym(k, self.I.run.fresh({"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[k], str(t[2]))))
        for n, f in self.alive:
            self.I.run.assume(f())
        for t, k, h in self.targets:
            if k in ("same", "int", "real", "bool"):
                continue
            if t[0] == "local":
                h.vars[t[2]] = Poison(f"{t[2]} is changed in a loop of unbounded length")
            elif t[0] == "field":
                h.fields[t[2]] = Poison(f"{t[2]} is changed in a loop of unbounded length")

    def element(self, j):
        for t, k, h in self.targets:
            if t[0] == "dict":
                h.abs.current = j
            elif t[0] == "list":
                h.abs.current = j
            elif t[0] == "model":
                h.loop_element(self.I, j)

    def between(self):
        self.poison()

    def end(self):
        self.element(None)

    def settle(self, log, watermark):
        changed = False
        for t, h in log.items():
            if t[0] == "global":
                raise Unsupported("a global is assigned in a loop of unbounded length")
            if t[1] is None or t[1] > watermark:
                continue
            if t[0] == "local":
                v = h.vars.get(t[2], MISSING)
                k = kind_of(v)
                if isinstance(v, (Obj, PDict, PList, PSet, ModelObj)) and log.old.get(t) is v:
                    k = "same"          # x += y and the like: the name still holds the object it held before the iteration
            elif t[0] == "field":
                v = h.fields.get(t[2], MISSING)
                k = kind_of(v)
                if isinstance(v, (Obj, PDict, PList, PSet, ModelObj)) and log.old.get(t) is v:
                    k = "same"
            elif t[0] in ("dict", "list", "model"):
                k = "collection"
            else:
                raise Unsupported(f"{t[0]} changed in a loop of unbounded length")
            if k not in ("int", "real", "bool", "same", "collection"):
                k = "other"
            old = self.info.writes.get(t)
            if old not in (k, "other"):
                self.info.writes[t] = k if old is None else "real" if {old, k} == {"int", "real"} else "other"
                changed = changed or self.info.writes[t] != old
        if changed:
            raise Restart(self.key[3])


class AbsPDict(PDict):
    @property
    def d(self):
        raise Unsupported("a dictionary of unbounded size is needed as a whole")

    @d.setter
    def d(self, v):
        raise Unsupported("a dictionary of unbounded size is replaced")


class AbsPList(PList):
    @property
    def items(self):
        raise Unsupported("a list of unbounded length is needed as a whole")

    @items.setter
    def items(self, v):
        raise Unsupported("a list of unbounded length is replaced")


class AbsList:
    """what a list holds: for every element of the sequence, in order, what its iteration added"""

    def __init__(self, seq):
        self.seq = seq
        self.added = {}              # index term id -> (index, [values])
        self.current = None
        self.after = []

    @staticmethod
    def begin(I, l, seq):
        if isinstance(l, PDeque):
            raise Unsupported("a deque is extended in a loop of unbounded length")
        if isinstance(l, AbsPList) or l.items:
            raise Unsupported("a list that is not empty is extended in a loop of unbounded length")
        del l.__dict__["items"]
        l.__class__ = AbsPList
        l.abs = AbsList(seq)

    def append(self, I, x):
        if self.current is None:
            self.after.append(x)
            return
        k = self.current.get_id()
        self.added.setdefault(k, (self.current, []))[1].append(x)

    def of(self, i):
        return self.added.get(i.get_id(), (i, []))[1]


class AbsDict:
    """an ordered dictionary: for every element of the sequence at most one entry under the element's key, in order; then
    the entries added later"""

    def __init__(self, seq, entry, built=False):
        self.seq, self.entry, self.built = seq, entry, built
        self.added = {}              # index term id -> (index, key, value): added by the loop
        self.seen = []               # indices that were named
        self.later = []              # [key, value] in order
        self.absent = []             # keys known to be in no element
        self.over = {}               # index term id -> value set later
        self.current = None
        self.loose = False           # iterations add entries under other keys than their element's
        self.relied = False          # a lookup relied on the opposite

    @staticmethod
    def begin(I, d, seq):
        if isinstance(d, AbsPDict) or d.d:
            raise Unsupported("a dictionary that is not empty is extended in a loop of unbounded length")
        del d.__dict__["d"]
        d.__class__ = AbsPDict
        d.abs = AbsDict(seq, None, True)

    @staticmethod
    def make(I, seq):
        """a dictionary with one entry per element: element = (key, value)"""
        d = I.pdict()
        del d.__dict__["d"]
        d.__class__ = AbsPDict
        d.abs = AbsDict(seq, lambda I_, i: seq.elem(I_, i))
        return d

    @staticmethod
    def copy_into(I, a, d):
        if isinstance(d, AbsPDict) or d.d or a.abs.current is not None:
            raise Unsupported("merging dictionaries of unbounded size")
        I.note(("dict", I.oid(d)), d)
        b = AbsDict(a.abs.seq, a.abs.entry, a.abs.built)
        b.added, b.later, b.over = dict(a.abs.added), [list(e) for e in a.abs.later], dict(a.abs.over)
        b.seen, b.absent = a.abs.seen, a.abs.absent         # facts about the elements both start from
        del d.__dict__["d"]
        d.__class__ = AbsPDict
        d.abs = b

    def name(self, I, i):
        """-> (key, value) or None, for the element at this index"""
        if self.built:
            if i.get_id() in self.added:
                return self.added[i.get_id()][1:]
            if any(i.get_id() == s.get_id() for s, _, _ in self.seq.loops if s is not None):
                return None
            raise Unsupported("entry of a dictionary filled by a loop")
        kv = self.entry(I, i)
        if not any(i.get_id() == s.get_id() for s in self.seen):
            for s in self.seen:
                k2 = self.entry(I, s)[0]
                I.run.assume(z3.Implies(i != s, z3.Not(bool_term(I.truth(I.eq(kv[0], k2))))))
                I.run.assume(z3.Implies(i == s, bool_term(I.truth(I.eq(kv[0], k2)))))
            for a in self.absent:
                I.run.assume(z3.Not(bool_term(I.truth(I.eq(kv[0], a)))))
            self.seen.append(i)
        return kv

    def find(self, I, k):
        """-> ("later", entry) or ("elem", index) or None"""
        for e in self.later:
            if I.run.branch(I.truth(I.eq(e[0], k))):
                return ("later", e)
        if self.built:
            for kid, (i, key, v) in self.added.items():
                if I.run.branch(I.truth(I.eq(key, k))):
                    return ("elem", i)
            own = self.current
            if not self.loose:
                for i in ([own] if own is not None else []) + [x for x, _, _ in self.seq.loops if x is not None]:
                    if key_of(I, self.seq, i, k):
                        self.relied = True
                        return None
            raise Unsupported("lookup in a dictionary filled by a loop")
        for i in list(self.seen):
            if I.run.branch(I.truth(I.eq(self.entry(I, i)[0], k))):
                return ("elem", i)
        for a in self.absent:
            if I.run.valid(I.truth(I.eq(a, k))):
                return None
        if I.run.choose(2) == 0:
            for s, _ in self.seq.elems.values():
                self.name(I, s)
                I.run.assume(neg_term(I, self.entry(I, s)[0], k))
            self.absent.append(k)
            return None
        i = I.run.fresh(z3.IntSort(), "ix")
        I.run.assume(z3.And(i >= 0, i < self.seq.n, *[i != s for s in self.seen]))
        kv = self.name(I, i)
        I.run.assume(I.truth(I.eq(kv[0], k)))
        if not I.run.feasible():
            raise PathEnd()
        return ("elem", i)

    def value(self, I, where):
        if where[0] == "later":
            return where[1][1]
        i = where[1]
        if i.get_id() in self.over:
            return self.over[i.get_id()]
        return self.name(I, i)[1]

    def set(self, I, k, v):
        if self.current is not None:
            if not key_of(I, self.seq, self.current, k):
                if self.relied:
                    raise Unsupported("an iteration adds an entry under another key")
                self.loose = True
            old = self.added.get(self.current.get_id())
            if old is not None and not I.run.valid(I.truth(I.eq(old[1], k))):
                raise Unsupported("an iteration adds several entries")
            self.added[self.current.get_id()] = (self.current, k, v)
            return
        w = self.find(I, k)
        if w is None:
            self.later.append([k, v])
        elif w[0] == "later":
            w[1][1] = v
        else:
            self.over[w[1].get_id()] = v

    def view(self, I, kind):
        return AbsView(self, kind)


def neg_term(I, a, b):
    return z3.Not(bool_term(I.truth(I.eq(a, b))))


def key_of(I, seq, i, k):
    """k is the key of the element at i"""
    if not seq.keyed:
        return False
    if seq.make_key is not None:
        return I.run.valid(I.truth(I.eq(seq.make_key(I, i), k)))
    x = seq.elem(I, i)
    key = x[0] if isinstance(x, tuple) else x
    return I.run.valid(I.truth(I.eq(key, k)))


class AbsView(ModelObj):
    def __init__(self, a, kind):
        self.a, self.kind = a, kind
        self.pytypes = ({"keys": collections.abc.KeysView, "values": collections.abc.ValuesView, "items": collections.abc.ItemsView}[kind],)

    def pick(self, kv):
        return kv[0] if self.kind == "keys" else kv[1] if self.kind == "values" else tuple(kv)

    def seq(self, I):
        a = self.a
        if a.built:
            raise Unsupported("loop over what a loop has filled")

        def make(I_, x, i):
            k, v = a.name(I_, i)
            return self.pick((k, a.over.get(i.get_id(), v)))
        r = a.seq.map(make)
        r.keyed = True
        r.make_key = lambda I_, i: a.name(I_, i)[0]
        return r

    def iterate(self, I, cb):
        s = self.seq(I)
        later = list(self.a.later)
        s.iterate(I, cb)
        for e in later:
            cb(self.pick(e))

    def contains(self, I, x):
        if self.kind == "keys":
            return self.a.find(I, x) is not None
        raise Unsupported("membership in the values of a dictionary of unbounded size")

    def length(self, I):
        if self.a.built:
            raise Unsupported("size of a dictionary filled by a loop")
        return mk("int", self.a.seq.n + len(self.a.later))

    def truth(self, I):
        if self.a.later:
            return True
        if self.a.built:
            raise Unsupported("size of a dictionary filled by a loop")
        return self.a.seq.n > 0


def install(SymS, NatS):
    def m_sequence(self, I, name, elem):
        """a list of any length; elem(k) makes the k-th element"""
        n = self.inp(I, name + ".n", "int", z3.IntSort())
        I.run.assume(n >= 0)
        return Seq(n, lambda I_, i: I_.call(elem, [mk("int", i)]), name)

    def m_inventory(self, I, name, entry):
        """a dictionary of any size with distinct keys; entry(k) -> (key, value)"""
        s = m_sequence(self, I, name, entry)
        s.keyed = True
        return AbsDict.make(I, s)

    def m_fill(self, I, obj, d):
        """the content of a dictionary (subclass) instance"""
        if isinstance(obj, Obj):
            obj.dictpart = d
        else:
            raise Unsupported("fill")

    def seq_of(x):
        if isinstance(x, Obj) and x.dictpart is not None:
            x = x.dictpart
        if isinstance(x, AbsPDict):
            return x.abs.seq, x.abs
        if isinstance(x, Seq):
            return x.base, None
        raise Unsupported("not a sequence of unbounded length")

    def m_is_first(self, I, items, r, pred):
        """r is the first element (dictionary: value) that satisfies pred; None when there is none"""
        seq, d = seq_of(items)

        def val(i):
            return d.name(I, i)[1] if d is not None else seq.elem(I, i)
        at = None
        later = d.later if d is not None else []
        n = len(later)
        if r is not None:
            for i, x in list(seq.elems.values()):
                if val(i) is r:
                    at = i
            if at is None:
                for n, e in enumerate(later):
                    if e[1] is r:
                        break
                else:
                    return False
        limit = at if at is not None else seq.n
        conds = []
        if r is not None:
            conds.append(I.decide(I.call(pred, [r])))
        else:
            n = len(later)
        done = False
        for j, lim, i in seq.loops:
            if lim.get_id() == limit.get_id():
                done = True
                if j is not None:
                    conds.append(not I.decide(I.call(pred, [val(j)])))
        if not done and not I.run.valid(limit <= 0):
            raise Unsupported("elements that were not looked at")
        if at is None:
            for e in later[:n]:
                conds.append(not I.decide(I.call(pred, [e[1]])))
        return all(conds)

    def m_each(self, I, label, items, fn):
        """obligation: fn(key, value) (list: fn(element)) for every entry that was looked at by a loop over all of them"""
        seq, d = seq_of(items)
        done = False
        for j, lim, i in seq.loops:
            if lim.get_id() == seq.n.get_id() or I.run.valid(lim == seq.n):
                done = True
                if j is not None:
                    a = list(d.name(I, j)) if d is not None else [seq.elem(I, j)]
                    I.run.check(label, I.truth(I.call(fn, a)))
        if not done and not I.run.valid(seq.n <= 0):
            raise Unsupported("elements that were not looked at")

    def m_filtered(self, I, label, items, result, keep, value):
        """obligation: the dictionary `result` has, in order, exactly the entries of `items` that keep(key, value) selects,
        under their keys, with value(key, value, new) holding"""
        seq, d = seq_of(items)
        r = result.dictpart if isinstance(result, Obj) else result
        if isinstance(r, PDict) and not isinstance(r, AbsPDict):
            # no iteration added anything
            if r.d:
                I.run.check(label, False)
            ra = None
        else:
            ra = r.abs
            if not ra.built or ra.seq.base is not seq:
                raise Unsupported("filled from something else")
            if ra.later:
                I.run.check(label, False)
        done = False
        for j, lim, i in seq.loops:
            if I.run.valid(lim == seq.n):
                done = True
                if j is None:
                    continue
                k, v = d.name(I, j)
                got = ra.added.get(j.get_id()) if ra is not None else None
                want = I.decide(I.call(keep, [k, v]))
                I.run.check(label + ": kept exactly when selected", (got is not None) == want)
                if got is not None and want:
                    I.run.check(label + ": under its name", I.truth(I.eq(got[1], k)))
                    I.run.check(label + ": with its content", I.truth(I.call(value, [k, v, got[2]])))
        if not done and not I.run.valid(seq.n <= 0):
            raise Unsupported("elements that were not looked at")

    def m_collected(self, I, label, items, result, fn):
        """obligation: the dictionary `result` is what adding fn(element) = (key, test of the value), or None for nothing, for every
        element in order gives"""
        seq, d = seq_of(items)
        r = result.dictpart if isinstance(result, Obj) else result
        ra = None
        if isinstance(r, AbsPDict):
            ra = r.abs
            if not ra.built or ra.seq.base is not seq:
                raise Unsupported("filled from something else")
            I.run.check(label, not ra.later)
        elif r.d:
            I.run.check(label, False)
        done = False
        for j, lim, i in seq.loops:
            if I.run.valid(lim == seq.n):
                done = True
                if j is None:
                    continue
                x = d.name(I, j) if d is not None else seq.elem(I, j)
                got = ra.added.get(j.get_id()) if ra is not None else None
                want = I.call(fn, [x])
                I.run.check(label + ": added exactly when it should", (got is not None) == (want is not None))
                if got is not None and want is not None:
                    I.run.check(label + ": under its name", I.truth(I.eq(got[1], want[0])))
                    I.run.check(label + ": with its content", I.truth(I.call(want[1], [got[2]])))
        if not done and not I.run.valid(seq.n <= 0):
            raise Unsupported("elements that were not looked at")

    def m_some(self, I, label, items, pred):
        """obligation: some element satisfies pred (the one a loop over all of them was left at)"""
        seq, d = seq_of(items)
        for j, lim, i in seq.loops:
            if i is not None:
                x = d.name(I, i) if d is not None else seq.elem(I, i)
                I.run.check(label, I.truth(I.call(pred, [x])))
                return
        raise Unsupported("elements that were not looked at")

    def m_matched(self, I, label, items, result, fn):
        """obligation: the list `result` has one element per element of `items`, in order, with fn(element, result)"""
        if isinstance(items, PList) and not isinstance(items, AbsPList) and isinstance(result, PList) and not isinstance(result, AbsPList):
            I.run.check(label + ": one for each", len(items.items) == len(result.items))
            for x, y in zip(items.items, result.items):
                I.run.check(label, I.truth(I.call(fn, [x, y])))
            return
        seq, d = seq_of(items)
        ra = getattr(result, "abs", None)
        if ra is None:
            if isinstance(result, PList):
                if I.run.valid(seq.n <= 0):
                    I.run.check(label + ": one for each", len(result.items) == 0)
                    return
                I.run.check(label + ": one for each", False)
            raise Unsupported("not built by a loop")
        if ra.seq.base is not seq:
            raise Unsupported("built from something else")
        I.run.check(label + ": one for each", len(ra.after) == 0)
        done = False
        for j, lim, i in seq.loops:
            if I.run.valid(lim == seq.n):
                done = True
                if j is not None:
                    got = ra.of(j)
                    I.run.check(label + ": one for each", len(got) == 1)
                    x = d.name(I, j) if d is not None else seq.elem(I, j)
                    I.run.check(label, I.truth(I.call(fn, [x, got[0]])))
        if not done and not I.run.valid(seq.n <= 0):
            raise Unsupported("elements that were not looked at")

    for f in (m_sequence, m_inventory, m_fill, m_is_first, m_each, m_filtered, m_collected, m_some, m_matched):
        setattr(SymS, f.__name__, f)

    def n_sequence(self, name, elem):
        n = self.int(name + ".n", 0, None, gen=lambda r: r.choice([0, 1, 2, 2, 3, 3, 4, 6]))
        return [elem(k) for k in range(min(n, 8))]

    def n_inventory(self, name, entry):
        d = {}
        for k, v in n_sequence(self, name, entry):
            if k not in d:
                d[k] = v
        return d

    def n_fill(self, obj, d):
        obj.clear()
        obj.update(d)

    def n_is_first(self, items, r, pred):
        vs = items.values() if isinstance(items, dict) else items
        want = next((v for v in vs if pred(v)), None)
        return r is want

    def n_each(self, label, items, fn):
        for x in (items.items() if isinstance(items, dict) else items):
            self.check(label, fn(*x) if isinstance(items, dict) else fn(x))

    def n_filtered(self, label, items, result, keep, value):
        want = [k for k, v in items.items() if keep(k, v)]
        self.check(label + ": kept exactly when selected", set(result) == set(want))
        self.check(label + ": in order", list(result) == want)
        for k in want:
            self.check(label + ": with its content", value(k, items[k], result[k]))

    def n_collected(self, label, items, result, fn):
        want = {}
        for x in (items.items() if isinstance(items, dict) else items):
            w = fn(x)
            if w is not None:
                want[w[0]] = w[1]
        self.check(label + ": added exactly when it should", list(result) == list(want))
        for k, t in want.items():
            if k in result:
                self.check(label + ": with its content", t(result[k]))

    def n_some(self, label, items, pred):
        self.check(label, any(pred(x) for x in (items.items() if isinstance(items, dict) else items)))

    def n_matched(self, label, items, result, fn):
        items = list(items.items() if isinstance(items, dict) else items)
        self.check(label + ": one for each", len(result) == len(items))
        for a, b in zip(items, result):
            self.check(label, fn(a, b))

    # unknown functions, natively: a random value per distinct arguments
    def key(args):
        out = []
        for a in args:
            if isinstance(a, (tuple, list)):
                out.append((type(a).__name__, key(a)))
            elif isinstance(a, dict):
                out.append(("dict", key(sorted(a.items(), key=lambda x: str(x[0])))))
            else:
                try:
                    hash(a)
                    out.append((type(a).__name__, a))
                except TypeError:
                    out.append(("id", id(a)))
        return tuple(out)

    def memo(self, name, args, f):
        m = self.__dict__.setdefault("_pure", {})
        k = (name, key(args))
        if k not in m:
            m[k] = f()
            self.__dict__.setdefault("_keep", []).append(args)
        return m[k]

    def n_pure(self, name, *args):
        return memo(self, name, args, lambda: self.opaque("pure_" + name))

    def n_pure_int(self, name, *args):
        return memo(self, name, args, lambda: self.int("pure_" + name))

    def n_pure_bool(self, name, *args):
        return memo(self, name, args, lambda: self.bool("pure_" + name))

    def n_pure_text(self, name, *args):
        return memo(self, name, args, lambda: self.text("pure_" + name))

    def n_suppose(self, c):
        from .harness import Skip
        if not c:
            raise Skip()

    for k, f in list(locals().items()):
        if k.startswith("n_"):
            setattr(NatS, k[2:], f)
