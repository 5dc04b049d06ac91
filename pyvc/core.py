"""Symbolic values, path state, decisions, obligations.

A *path* is executed from the start with a prefix of recorded decisions (depth-first search by
re-execution).  Every obligation met on a path is `path condition => goal`; it is discharged when the
solver refutes `path condition and not goal`.
"""
import time, fractions
import z3

# ---------------------------------------------------------------------------------------------
# universal value sort: keys of abstract maps, opaque values, hash pre-images
# ---------------------------------------------------------------------------------------------
V = z3.Datatype("V")
V.declare("VNone")
V.declare("VBool", ("vbool", z3.BoolSort()))
V.declare("VInt", ("vint", z3.IntSort()))
V.declare("VReal", ("vreal", z3.RealSort()))
V.declare("VStr", ("vstr", z3.StringSort()))
V.declare("VObj", ("vobj", z3.IntSort()))            # opaque object, by identity number
V.declare("VNil")
V.declare("VCons", ("vhead", V), ("vtail", V))       # sequences
V.declare("VDict", ("vitems", V))                    # mapping with sorted keys
V.declare("VSha", ("vpre", V))                       # injective digest (assumption: collision free)
V.declare("VJson", ("vjson", V))                     # injective serialisation
V.declare("VText", ("vtext", V))                     # a text within a serialisation (no number, list or null)
V = V.create()


class Unsupported(Exception):
    """The verifier cannot translate this construct: the obligation is undecided (never a violation)."""


class NeedWhole(Unsupported):
    """A collection of unbounded size is needed as a whole."""


class PathEnd(Exception):
    """The path ends here (infeasible, or a loop-body path whose obligations are done)."""


class Restart(Exception):
    """Loop tables changed: the exploration of the harness starts again."""


class PyExc(Exception):
    """An exception of the interpreted program."""
    def __init__(self, value, cause=None):
        self.value = value          # Obj whose cls is an exception class
        self.cause = cause


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class BreakIter(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# values
# ---------------------------------------------------------------------------------------------
class Sym:
    """Symbolic scalar. kind: int, real, bool, str (z3 String or structured), opaque (sort V)."""
    __slots__ = ("kind", "t", "parts", "pytype", "meta")

    def __init__(self, kind, t=None, parts=None, pytype=None, meta=None):
        self.kind, self.t, self.parts, self.pytype, self.meta = kind, t, parts, pytype, meta

    def __repr__(self):
        return f"<{self.kind} {self.t if self.parts is None else self.parts}>"

    def __bool__(self):
        raise Unsupported("host truth value of a symbolic value")

    __hash__ = None


class Obj:
    """Instance of a live class (or of a model class)."""
    _n = 0

    def __init__(self, cls, fields=None, oid=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.dictpart = None          # PDict for dict subclasses
        self.tup = None               # tuple for namedtuples
        self.guard = None             # monitor protecting some fields
        self.frozen = False           # a copy of what an abstract collection holds
        self.oid = oid

    def __repr__(self):
        return f"<Obj {getattr(self.cls, '__name__', self.cls)}>"

    def __bool__(self):
        raise Unsupported("host truth value of Obj")


class PList:
    def __init__(self, items=()):
        self.items = list(items)
        self.oid = None

    def __repr__(self):
        return f"PList{self.items!r}"

    def __bool__(self):
        raise Unsupported("host truth value of PList")


class PDeque(PList):
    """collections.deque without a maximal length"""


class SymKey:
    """dictionary key that is not a concrete hashable"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class PDict:
    """insertion-ordered mapping; concrete keys stored natively, symbolic keys wrapped."""
    def __init__(self, items=()):
        self.d = {}
        self.nsym = 0
        self.oid = None
        self.default_factory = None
        self.pytype = None
        self.hook = None
        for k, v in items:
            self.d[k] = v

    def __repr__(self):
        return f"PDict{self.d!r}"

    def __bool__(self):
        raise Unsupported("host truth value of PDict")


class PSet:
    def __init__(self, items=()):
        self.items = list(items)
        self.oid = None

    def __bool__(self):
        raise Unsupported("host truth value of PSet")


class SymBytes:
    """bytes with symbolic content: list of parts.
    parts: native bytes | ('enc', strvalue) | ('int', nbytes, order, signed, Sym int) | ('blob', Sym opaque, len)"""
    def __init__(self, parts):
        self.parts = list(parts)


class Func:
    """Interpreted function (closure or live function with a live globals dict)."""
    def __init__(self, node, env, globs, name, qual, defaults, kwdefaults, live=None, owner=None):
        self.node, self.env, self.globs, self.name, self.qual = node, env, globs, name, qual
        self.defaults, self.kwdefaults, self.live, self.owner = defaults, kwdefaults, live, owner
        self.attrs = {}

    def __repr__(self):
        return f"<Func {self.qual}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Model:
    """Assumed contract of an external function: python callable (interp, args, kwargs) -> value."""
    def __init__(self, fn, name=None):
        self.fn, self.name = fn, name or getattr(fn, "__name__", "model")

    def __repr__(self):
        return f"<Model {self.name}>"


class ModelObj:
    """Base of host-implemented external objects. Subclasses implement getattr(interp, name)."""
    pytypes = ()

    def getattr(self, I, name):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return Model(lambda I_, a, k, m=m: m(I_, *a, **k), type(self).__name__ + "." + name)
        f = getattr(self, "f_" + name, None)
        if f is not None:
            return f(I)
        raise_attr(I, self, name)

    def setattr(self, I, name, v):
        raise Unsupported(f"assignment to attribute {name} of {type(self).__name__}")

    def isinstance(self, cls):
        return any(isinstance(p, type) and issubclass(p, cls) for p in self.pytypes)


def raise_attr(I, o, name):
    if isinstance(o, ModelObj) and (not o.pytypes or any(hasattr(t, name) for t in o.pytypes)) and not (name.startswith("__") and name.endswith("__")):
        raise Unsupported(f"{name} of {type(o).__name__}")
    raise PyExc(I.new_exc(AttributeError, f"{type(o).__name__} has no attribute {name}"))


# ---------------------------------------------------------------------------------------------
# path state
# ---------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.backends = {}


class Explorer:
    """Explores all paths of one harness."""
    def __init__(self, name, body, timeout_s=60.0, max_paths=4000, query_ms=4000, stats=None):
        self.name, self.body = name, body
        self.timeout_s, self.max_paths, self.query_ms = timeout_s, max_paths, query_ms
        self.loops = {}              # loop key -> LoopInfo
        self.stats = stats or Stats()
        self.results = []            # list of Obligation
        self.undecided = []          # reasons
        self.paths = 0
        self.covers = {}
        self.absloops = set()        # any/all over sequences of unbounded length
        self.nomerge = set()         # boolean expressions whose operands must not be joined
        self.functions = set()       # qualified names of interpreted repo functions
        self.models_used = set()

    def explore(self):
        self.use_hints = True
        self.hints = {}
        self._explore_all()
        if self.hinted and any(o.status != "discharged" for o in self.results):
            self.use_hints = False
            self.loops = {}
            self._explore_all()

    def _explore_all(self):
        t0 = time.time()
        self.hinted = False
        restarts = 0
        while True:
            try:
                self._explore(t0)
                return
            except Restart:
                restarts += 1
                if restarts > 60:
                    self.undecided.append("loop inference did not converge")
                    return

    def _explore(self, t0):
        self.paths = 0
        done = []                    # (decisions, results, undecided, covers)
        work = [[]]
        restarts = {}
        try:
            while work:
                if self.paths >= self.max_paths or time.time() - t0 > self.timeout_s:
                    done.append(([], [], [f"path or time budget exhausted after {len(done)} paths"], {}))
                    return
                prefix = work.pop()
                run = Run(self, prefix)
                self.paths += 1
                self.results, self.undecided, self.covers = [], [], {}
                try:
                    self.body(run)
                except PathEnd:
                    pass
                except Restart as e:
                    if not e.args:
                        raise
                    p = list(e.args[0])
                    restarts[tuple(p)] = restarts.get(tuple(p), 0) + 1
                    if restarts[tuple(p)] > 60:
                        done.append((run.decisions, [], ["loop inference did not converge"], {}))
                    else:
                        # only the paths through this loop are explored again
                        n = len(p)
                        done = [d for d in done if d[0][:n] != p]
                        work = [w for w in work + run.pending if w[:n] != p or len(w) < n]
                        work.append(p)
                    continue
                except Unsupported as e:
                    self.undecided.append(f"unsupported: {e} at {run.where()}")
                except RecursionError:
                    self.undecided.append("recursion limit")
                done.append((list(run.decisions), self.results, self.undecided, self.covers))
                work.extend(run.pending)
        finally:
            self.results = [o for d in done for o in d[1]]
            self.undecided = [u for d in done for u in d[2]]
            self.covers = {}
            for d in done:
                for k, v in d[3].items():
                    self.covers[k] = self.covers.get(k, 0) + v
            self.paths = len(done)


class Obligation:
    __slots__ = ("label", "status", "model", "detail", "run", "backend", "imprecise")

    def __init__(self, label, status, model=None, detail="", run=None, backend="z3", imprecise=False):
        self.label, self.status, self.model, self.detail, self.run = label, status, model, detail, run
        self.backend, self.imprecise = backend, imprecise


class Run:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", min(400, ex.query_ms))
        self.last_model = None
        self.pc = []
        self.n = 0
        self.inputs = {}             # name -> (kind, payload) for replay
        self.choices = {}            # name -> index
        self.imprecise = False
        self.loc = None
        self.known_keys = {}         # map lineage -> list of V terms
        self.objn = 0
        self.lift_memo = {}
        self.writes = None           # active write log (list) or None
        self.writelogs = []
        self.monitors = []
        self.keepalive = []
        self.ghost = {}
        self.nwrites = 0

    # -- naming ------------------------------------------------------------------------------
    def fresh(self, sort, base="x"):
        self.n += 1
        return z3.Const(f"{base}!{self.n}", sort)

    def where(self):
        return self.loc

    # -- solving -----------------------------------------------------------------------------
    def _check(self, *extra):
        """incremental query first, then a fresh one-shot solver (other tactics apply)"""
        t = time.time()
        self.ex.stats.queries += 1
        r = self.solver.check(*extra)
        self.last_model = self.solver
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.ex.query_ms)
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
            self.last_model = s
            if r == z3.unknown:
                s = z3.SimpleSolver()
                s.set("timeout", self.ex.query_ms)
                s.set("arith.solver", 2)
                s.add(*self.pc)
                s.add(*extra)
                r = s.check()
                self.last_model = s
        self.ex.stats.solver_s += time.time() - t
        return r

    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathEnd()
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.pc.append(t)
        self.solver.add(t)

    def feasible(self, t=None):
        r = self._check() if t is None else self._check(t)
        return r != z3.unsat

    def valid(self, t):
        """True only if proved."""
        if t is True:
            return True
        if t is False:
            return self._check() == z3.unsat
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        return self._check(z3.Not(t)) == z3.unsat

    def branch(self, t):
        """Decide a boolean term: returns a host bool, forking the exploration."""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
            self.pc.append(t if d else z3.Not(t))
            self.solver.add(self.pc[-1])
            return bool(d)
        nt = z3.simplify(z3.Not(t))
        f1 = self._check(t) != z3.unsat
        f0 = self._check(nt) != z3.unsat
        if f1 and f0:
            self.pending.append(self.decisions + [False])
            d = True
        elif f1:
            d = "T"  # forced by what is known: no case split
        elif f0:
            d = ""
        else:
            raise PathEnd()
        self.decisions.append(d)
        self.pc.append(t if d else nt)
        self.solver.add(self.pc[-1])
        return bool(d)

    def splits(self):
        """The number of case splits made so far."""
        return sum(not isinstance(d, str) for d in self.decisions)

    def choose(self, n):
        """Nondeterministic choice 0..n-1."""
        if n == 1:
            return 0
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.pending.append(self.decisions + [j])
        self.decisions.append(d)
        return d

    # -- obligations -------------------------------------------------------------------------
    def check(self, label, t, detail=""):
        """Obligation: path condition => t."""
        if t is True or (not isinstance(t, bool) and z3.is_true(z3.simplify(t))):
            self.ex.results.append(Obligation(label, "discharged", backend="simplifier"))
            return True
        neg = z3.BoolVal(True) if t is False else z3.Not(t)
        r = self._check(neg)
        if r == z3.unsat:
            self.ex.results.append(Obligation(label, "discharged"))
            if t is False:
                raise PathEnd()          # the path itself is infeasible
            self.assume(t)
            return True
        backend = "z3"
        if r == z3.unknown:
            r2 = retry_other(self, neg)
            if r2 == "unsat":
                self.ex.results.append(Obligation(label, "discharged", backend="cvc5"))
                if t is False:
                    raise PathEnd()
                self.assume(t)
                return True
            self.ex.results.append(Obligation(label, "undecided", None, detail or "solver: unknown", self))
            if t is False:
                raise PathEnd()
            self.assume(t)
            return False
        m = self.last_model.model()
        self.ex.results.append(Obligation(label, "refuted", m, detail, self, backend, self.imprecise))
        if t is False:
            raise PathEnd()
        self.assume(t)
        if not self.feasible():
            raise PathEnd()
        return False


def retry_other(run, neg):
    """Second opinion from cvc5 on a query z3 could not decide."""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*run.pc)
        s.add(neg)
        txt = s.to_smt2()
        t = time.time()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(run.ex.query_ms))
        slv.setOption("strings-exp", "true")
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif "sat" in str(out):
                res = "sat"
        run.ex.stats.solver_s += time.time() - t
        return res
    except Exception:
        return None


# ---------------------------------------------------------------------------------------------
# helpers on terms
# ---------------------------------------------------------------------------------------------
def rat(x):
    """exact real term of a python number"""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = fractions.Fraction(repr(x)) if isinstance(x, float) else fractions.Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def is_num(v):
    return isinstance(v, (int, float)) or (isinstance(v, Sym) and v.kind in ("int", "real", "bool"))


def real_term(v):
    if isinstance(v, Sym):
        if v.kind == "int":
            return z3.ToReal(v.t)
        if v.kind == "bool":
            return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
        return v.t
    return rat(v)


def int_term(v):
    if isinstance(v, Sym):
        if v.kind == "bool":
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return v.t
    return z3.IntVal(int(v))


def bool_term(v):
    if isinstance(v, Sym):
        return v.t
    return z3.BoolVal(bool(v))


def mk(kind, t):
    """Wrap a term, folding constants back to host values."""
    t = z3.simplify(t)
    if kind == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    elif kind == "int":
        if z3.is_int_value(t):
            return t.as_long()
    return Sym(kind, t)


def conj(ts):
    ts = [t for t in ts if t is not True]
    if any(t is False for t in ts):
        return False
    ts = [t.t if isinstance(t, Sym) else t for t in ts]
    if not ts:
        return True
    return mk("bool", z3.And(*ts))


def disj(ts):
    ts = [t for t in ts if t is not False]
    if any(t is True for t in ts):
        return True
    ts = [t.t if isinstance(t, Sym) else t for t in ts]
    if not ts:
        return False
    return mk("bool", z3.Or(*ts))


def neg(t):
    if isinstance(t, bool):
        return not t
    return mk("bool", z3.Not(t.t))
