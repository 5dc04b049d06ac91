"""Harnesses: contracts written as ordinary Python (in /verif/specs), used three ways.

 symbolic  the harness function and everything of /repo it calls are interpreted; every S.check is an obligation
 replay    the harness runs natively under CPython on the inputs of a counterexample, against the real code
 search    the harness runs natively on seeded random inputs (the run-time contract check / bounded stand-in)
"""
import contextlib, fractions, importlib, io, json, os, random, re, signal, sys, time, traceback, types
import z3
from .core import *
from .core import V
from . import strs, models, npm
from .interp import Interp, MISSING, LocalInst
from .models import Context


class Skip(Exception):
    """the inputs do not satisfy the precondition"""


class ContractFailure(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


class Harness:
    def __init__(self, fn, opts):
        self.fn, self.opts, self.name = fn, opts, opts.get("name") or fn.__name__


def harness(fn=None, **opts):
    """register a contract harness. opts: timeout, max_paths, query_ms, samples, symbolic=False, native=False"""
    def deco(f):
        f.__globals__.setdefault("HARNESSES", []).append(Harness(f, opts))
        return f
    return deco(fn) if fn is not None else deco


# ---------------------------------------------------------------------------------------------
# symbolic side
# ---------------------------------------------------------------------------------------------
class SymS(ModelObj):
    def __init__(self, I):
        self.names = {}
        self.I = I

    def uname(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def inp(self, I, name, kind, sort):
        name = self.uname(name)
        t = z3.Const("in_" + name, sort)
        I.run.inputs[name] = (kind, t)
        return t

    def f_symbolic(self, I):
        return True

    def f_tol(self, I):
        return 0

    def m_int(self, I, name, lo=None, hi=None, gen=None):
        t = self.inp(I, name, "int", z3.IntSort())
        if lo is not None:
            I.run.assume(t >= int_term(lo))
        if hi is not None:
            I.run.assume(t <= int_term(hi))
        return Sym("int", t)

    def m_real(self, I, name, lo=None, hi=None, gen=None):
        t = self.inp(I, name, "real", z3.RealSort())
        if lo is not None:
            I.run.assume(t >= real_term(lo))
        if hi is not None:
            I.run.assume(t <= real_term(hi))
        return Sym("real", t)

    def m_bool(self, I, name):
        return Sym("bool", self.inp(I, name, "bool", z3.BoolSort()))

    def m_str(self, I, name, gen=None, nonempty=False, lang=None):
        t = self.inp(I, name, "str", z3.StringSort())
        if lang is not None:
            r = strs.rx_of(re.compile(lang)).lang()
            I.run.ghost.setdefault("lang", {})[t.get_id()] = r
            I.run.assume(z3.InRe(t, r))
        if nonempty:
            I.run.assume(z3.Length(t) > 0)
        return Sym("str", t)

    def m_text(self, I, name, gen=None):
        """an atomic piece of text: only its identity matters"""
        t = self.inp(I, name, "text", V)
        return Sym("str", None, (("v", t),))

    def m_plain(self, I, name, gen=None):
        """a name: letters, digits and underscores only, not empty"""
        x = self.m_text(I, name)
        t = x.parts[0][1]
        I.run.ghost.setdefault("plain", {})[t.get_id()] = t
        return x

    def m_opaque(self, I, name, cls=None):
        """a value about which only its identity (equality) is known"""
        t = self.inp(I, name, "opaque", V)
        return Sym("opaque", t, meta={})

    def m_token(self, I, name):
        """a value distinct from every other"""
        o = I.obj(object)
        o.fields["_name"] = name
        return o

    def m_choice(self, I, name, *opts):
        name = self.uname(name)
        fixed = I.ctx.options.get("fixed", {})
        k = fixed[name] if name in fixed else I.run.choose(len(opts))
        I.run.choices[name] = k
        return opts[k]

    def m_assume(self, I, c):
        t = I.truth(c)
        if not I.run.branch(t):
            raise PathEnd()

    def m_check(self, I, label, c, detail=""):
        t = I.truth(c)
        I.run.check(label, t, detail if isinstance(detail, str) else "")

    def m_cover(self, I, label):
        I.run.ex.covers[label] = I.run.ex.covers.get(label, 0) + 1

    def m_patch(self, I, target, name, value, **k):
        self.patch(I, target, name, value)

    def patch(self, I, target, name, value):
        if isinstance(target, types.ModuleType):
            I.run.ghost[("global", id(target.__dict__), name)] = value
            live = getattr(target, name, None)
            # aliases imported elsewhere keep the original: the patch follows the live object
            try:
                if isinstance(live, types.FunctionType):
                    I.ctx.contracts[live] = lambda I2, a, k: I2.call(value, a, k)
            except TypeError:
                pass
        elif isinstance(target, type):
            live = target.__dict__.get(name)
            f = live.__func__ if isinstance(live, (staticmethod, classmethod)) else live
            if isinstance(f, types.FunctionType):
                I.ctx.contracts[f] = lambda I2, a, k: I2.call(value, a, k)
            I.run.ghost[("classattr", target, name)] = value
        elif isinstance(target, Obj):
            target.fields[name] = value
        else:
            raise Unsupported("patch target")

    def m_use_contract(self, I, fn, handler):
        """calls of the real function are checked against its contract (handler), not its body"""
        f = fn.fn if isinstance(fn, Bound) else fn
        I.ctx.contracts[f] = lambda I2, a, k: I2.call(handler, [self] + list(a), k)

    def m_fresh_int(self, I, name="k"):
        return Sym("int", I.run.fresh(z3.IntSort(), name))

    def m_fresh_real(self, I, name="x"):
        return Sym("real", I.run.fresh(z3.RealSort(), name))

    def m_fresh_bool(self, I, name="b"):
        return Sym("bool", I.run.fresh(z3.BoolSort(), name))

    def _fn(self, I, name, args, sort):
        f = z3.Function("pure_" + name, V, sort)
        return f(I.toV(tuple(args)))

    def m_pure(self, I, name, *args):
        """value of an (unknown) function of the arguments"""
        return Sym("opaque", self._fn(I, name, args, V), meta={})

    def m_pure_int(self, I, name, *args):
        return Sym("int", self._fn(I, name, args, z3.IntSort()))

    def m_pure_bool(self, I, name, *args):
        return Sym("bool", self._fn(I, name, args, z3.BoolSort()))

    def m_pure_text(self, I, name, *args):
        return Sym("str", None, (("v", self._fn(I, name, args, V)),))

    def m_peek(self, I, o, name):
        """field of an object as it is (no scheduling)"""
        return o.fields[name]

    def m_alone(self, I):
        """the operation is over: what follows looks at the state without other threads acting"""
        m = I.run.ghost.get("monitor")
        if m is not None:
            if not m.acquisitions and not m.off:
                m.havoc(I)
            m.off += 1

    def m_forall_items(self, I, label, items, fn):
        """obligation: fn(key, value) for every entry"""
        from . import amap
        if isinstance(items, amap.AMap):
            k = amap.name_key(I.run, I.run.fresh(V, "sk"))
            if I.run.branch(items.st.dom[k]):
                I.run.check(label, I.truth(I.call(fn, [items.keyval(k), items.value(I, k)])))
            return
        for k in I.to_list(items):
            I.run.check(label, I.truth(I.call(fn, [k, I.getitem(items, k)])))

    def m_either(self, I, *cs):
        return disj([c if isinstance(c, (bool, Sym)) else I.decide(c) for c in cs])

    def m_all_of(self, I, *cs):
        return conj([c if isinstance(c, (bool, Sym)) else I.decide(c) for c in cs])

    def m_suppose(self, I, c):
        """assume a postcondition (no case split)"""
        I.run.assume(I.truth(c))

    def m_module(self, I, name, obj):
        """what importing the module gives; None: it cannot be imported"""
        I.ctx.modules[name] = obj

    def m_environ(self, I, pairs):
        d = I.pdict(pairs if isinstance(pairs, list) else [])
        I.dict_update(d, [pairs], {})
        I.ctx.options["environ"] = d
        return d

    def m_same(self, I, a, b):
        """identity of results (native: `is` or array equality)"""
        if isinstance(a, Sym) or isinstance(b, Sym):
            return I.eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return conj([self.m_same(I, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        return a is b or (isinstance(a, (int, str, float, bool, type(None))) and isinstance(b, (int, str, float, bool, type(None))) and a == b)

    def getattr(self, I, name):
        h = I.ctx.options.get("S_" + name)
        if h is not None:
            return Model(lambda I_, a, k: h(I_, self, *a, **k), "S." + name)
        return super().getattr(I, name)


# ---------------------------------------------------------------------------------------------
# native side
# ---------------------------------------------------------------------------------------------
class Token:
    def __init__(self, name):
        self._name = name

    def __repr__(self):
        return f"Token({self._name})"


class NatS:
    symbolic = False
    tol = 1e-9

    def __init__(self, rng, values=None, choices=None):
        self.rng, self.values, self.choices = rng, values, choices
        self.names = {}
        self.log = {}
        self.logc = {}
        self.evals = 0
        self.undo = []
        self.tokens = {}
        self.replaying = values is not None

    def uname(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _get(self, name, f):
        name = self.uname(name)
        if self.values is not None and name in self.values:
            v = self.values[name]
        else:
            v = f()
        self.log[name] = v
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        def f():
            if gen is not None:
                return gen(self.rng)
            a = lo if lo is not None else (hi - 1000 if hi is not None else -1000)
            b = hi if hi is not None else a + 2000
            r = self.rng.random()
            if r < 0.1:
                return a
            if r < 0.2:
                return b
            if r < 0.5:
                return self.rng.randint(a, min(b, a + 10))
            return self.rng.randint(a, b)
        return self._get(name, f)

    def real(self, name, lo=None, hi=None, gen=None):
        def f():
            if gen is not None:
                return gen(self.rng)
            a = lo if lo is not None else -1000
            b = hi if hi is not None else a + 2000
            n = int((b - a) * 8)
            return float(a) + self.rng.randint(0, n) / 8.0
        return self._get(name, f)

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5)

    def str(self, name, gen=None, nonempty=False, lang=None):
        def f():
            if gen is not None:
                return gen(self.rng)
            n = self.rng.randint(1 if nonempty else 0, 6)
            return "".join(self.rng.choice("abAB01 .-_/%x") for _ in range(n))
        return self._get(name, f)

    def text(self, name, gen=None):
        return self._get(name, lambda: gen(self.rng) if gen else self.rng.choice(["aa", "bb", "c_d", "E1", "longer_name_7"]))

    def plain(self, name, gen=None):
        return self.text(name, gen)

    def opaque(self, name, cls=None):
        k = self._get(name, lambda: self.rng.randint(0, 3))
        if k not in self.tokens:
            self.tokens[k] = Token(f"{name}:{k}")
        return self.tokens[k]

    def token(self, name):
        return Token(name)

    def choice(self, name, *opts):
        name = self.uname(name)
        if self.choices is not None and name in self.choices:
            k = self.choices[name]
        else:
            k = self.rng.randrange(len(opts))
        self.logc[name] = k
        return opts[k]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, detail=""):
        self.evals += 1
        if not c:
            raise ContractFailure(label, detail)

    def cover(self, label):
        pass

    def peek(self, o, name):
        return getattr(o, name)

    def alone(self):
        pass

    def forall_items(self, label, items, fn):
        for k, v in items.items():
            self.check(label, fn(k, v))

    def snapshot(self, c):
        return dict(c.items)

    def same_item(self, before, k, v):
        return before.get(k) is v

    def use_contract(self, fn, handler):
        pass

    def either(self, *cs):
        return any(cs)

    def all_of(self, *cs):
        return all(cs)

    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a is b or (isinstance(a, (int, str, float, bool, type(None))) and a == b)

    def patch(self, target, name, value, **k):
        had = name in vars(target)
        old = vars(target).get(name)
        setattr(target, name, value)
        self.undo.append((target, name, had, old))
        live = old
        if isinstance(target, types.ModuleType) and isinstance(old, types.FunctionType):
            for m in list(sys.modules.values()):
                d = getattr(m, "__dict__", None)
                if d is not None and m is not target and getattr(m, "__name__", "").startswith("earthkit.regrid"):
                    for kk, vv in list(d.items()):
                        if vv is old:
                            setattr(m, kk, value)
                            self.undo.append((m, kk, True, old))

    def module(self, name, obj):
        had, old = name in sys.modules, sys.modules.get(name)
        sys.modules[name] = obj
        self.undo.append(("call", lambda: sys.modules.__setitem__(name, old) if had else sys.modules.pop(name, None)))

    def environ(self, pairs):
        pairs = dict(pairs)
        old = dict(os.environ)
        self.undo.append(("env", old))
        for k in list(os.environ):
            if k.startswith("EARTHKIT_"):
                del os.environ[k]
        os.environ.update(pairs)
        return os.environ

    def close(self):
        for u in reversed(self.undo):
            if u[0] == "env":
                for k in list(os.environ):
                    if k not in u[1]:
                        del os.environ[k]
                os.environ.update(u[1])
                continue
            if u[0] == "call":
                u[1]()
                continue
            target, name, had, old = u
            if had:
                setattr(target, name, old)
            else:
                delattr(target, name)
        self.undo = []


def unmodelled(h, e):
    """the code asked a stand-in of the specification for something its contract does not mention: nothing is decided by that"""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        m = o.__module__ if isinstance(o, type) else type(o).__module__
        return isinstance(m, str) and m.split(".")[0] in ("specs", "pyvc")
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got|takes|missing)", str(e))
        if m:
            o = vars(sys.modules[h.fn.__module__]).get(m.group(1).split(".")[0])
            return str(getattr(o, "__module__", "")).split(".")[0] in ("specs", "pyvc")
    return False


def native_run(h, rng, values=None, choices=None, timeout=20):
    """-> (status, label, detail, S)   status: ok, skip, fail, error"""
    S = NatS(rng, values, choices)

    def on_alarm(sig, frm):
        raise TimeoutError("harness run does not finish")
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h.fn(S)
        return "ok", None, "", S
    except Skip:
        return "skip", None, "", S
    except ContractFailure as e:
        return "fail", e.label, e.detail, S
    except TimeoutError as e:
        return "fail", "terminates", traceback.format_exc(limit=-6), S
    except Exception as e:
        if unmodelled(h, e):
            return "unmodelled", repr(e), traceback.format_exc(limit=-6), S
        if not isinstance(e, (AttributeError, ImportError, NameError)):
            return "fail", "no unexpected exception", traceback.format_exc(limit=-6), S
        tb = traceback.extract_tb(e.__traceback__)
        # raised by the specification itself: the interface it relies on is gone
        if tb and "/specs/" in tb[-1].filename:
            return "error", repr(e), traceback.format_exc(limit=-6), S
        return "fail", "no unexpected exception", traceback.format_exc(limit=-6), S
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        S.close()


# ---------------------------------------------------------------------------------------------
# verification of one harness
# ---------------------------------------------------------------------------------------------
def model_value(m, kind, t, toks):
    v = m.eval(t, model_completion=True)
    if kind == "int":
        return v.as_long()
    if kind == "real":
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if kind == "bool":
        return z3.is_true(v)
    if kind == "str":
        s = v.as_string()
        import re
        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)
    key = v.sexpr()
    if key not in toks:
        toks[key] = len(toks)
    return f"t{toks[key]}" if kind == "text" else toks[key]


def extract(run, m):
    toks = {}
    vals = {}
    for name, (kind, t) in run.inputs.items():
        try:
            vals[name] = model_value(m, kind, t, toks)
        except Exception:
            pass
    return vals, dict(run.choices)


def make_body(h, setup=None, fixed=None):
    def body(run):
        ctx = models.with_defaults(Context())
        ctx.options["fixed"] = fixed or {}
        if h.opts.get("forever"):
            ctx.options["forever"] = True
        I = Interp(run, ctx)
        S = SymS(I)
        if setup:
            setup(I, S)
        ext = h.opts.get("setup")
        if ext:
            ext(I, S)
        try:
            I.call(h.fn, [S])
        except PyExc as e:
            c = e.value
            if c in run.ghost.get("unmodelled", ()):
                raise Unsupported(f"outside the contract of a stand-in: {c.fields.get('args', '')!r:.200}")
            run.check(f"no unexpected exception", False,
                      f"{getattr(c.cls, '__name__', c.cls)}{c.fields.get('args', '')!r:.200} raised at {run.where()}")
        if not run.ex.covers.get("__end"):
            if run._check() == z3.sat:
                run.ex.covers["__end"] = 1
    return body


def verify(h, seed=0, tier="quick", fixed=None):
    """-> plain dict"""
    import random
    t0 = time.time()
    o = h.opts
    thorough = tier == "thorough"
    res = {"harness": h.name, "obligations": {}, "undecided": [], "violations": [], "native": {}, "functions": [], "models": []}
    if o.get("symbolic", True):
        ex = Explorer(h.name, make_body(h, None, fixed), timeout_s=o.get("timeout", 40) * (4 if thorough else 1),
                      max_paths=o.get("max_paths", 3000) * (4 if thorough else 1),
                      query_ms=o.get("query_ms", 4000) * (3 if thorough else 1))
        try:
            ex.explore()
        except Exception as e:
            ex.undecided.append(f"verifier error: {e!r} {traceback.format_exc(limit=-4)}")
        res["paths"] = ex.paths
        res["undecided"] = sorted(set(ex.undecided))
        res["functions"] = sorted(ex.functions)
        res["models"] = sorted(ex.models_used)
        res["solver_s"] = ex.stats.solver_s
        res["queries"] = ex.stats.queries
        res["reachable"] = bool(ex.covers.get("__end"))
        counts = {}
        for ob in ex.results:
            c = counts.setdefault(ob.label, {"discharged": 0, "refuted": 0, "undecided": 0, "backends": {}})
            c[ob.status] += 1
            if ob.status == "discharged":
                c["backends"][ob.backend] = c["backends"].get(ob.backend, 0) + 1
        res["obligations"] = counts
        seen = {}
        for ob in ex.results:
            if ob.status != "refuted":
                continue
            n = seen.get(ob.label, 0)
            seen[ob.label] = n + 1
            if n >= 4:
                continue
            vals, chs = extract(ob.run, ob.model)
            v = {"harness": h.name, "label": ob.label, "inputs": vals, "choices": chs, "detail": ob.detail,
                 "imprecise": bool(ob.run.imprecise), "where": str(ob.run.loc), "confirmed": False}
            if o.get("native", True):
                st, lab, det, S = native_run(h, random.Random(seed), vals, chs)
                v["replay"] = {"status": st, "label": lab, "detail": det}
                v["confirmed"] = st == "fail"
                if st == "fail":
                    v["inputs"], v["choices"] = dict(S.log), dict(S.logc)
            res["violations"].append(v)
    if o.get("native", True) and not any((fixed or {}).values()):
        rng = random.Random(f"{seed}:{h.name}")
        n_max = o.get("samples", 200) * (10 if thorough else 1)
        t_max = o.get("search_s", 3) * (8 if thorough else 1)
        t1 = time.time()
        n = ok = evals = 0
        distinct = set()
        samples = []
        errors = []
        while n < n_max and time.time() - t1 < t_max:
            n += 1
            st, lab, det, S = native_run(h, rng)
            evals += S.evals
            if st == "ok":
                ok += 1
                key = repr(sorted(S.log.items(), key=lambda x: x[0])) + repr(S.logc)
                if key not in distinct:
                    distinct.add(key)
                    if len(samples) < 2:
                        samples.append({"inputs": {k: repr(x)[:80] for k, x in S.log.items()}, "choices": S.logc})
            elif st == "fail":
                res["violations"].append({"harness": h.name, "label": lab, "inputs": dict(S.log), "choices": dict(S.logc),
                                          "detail": det, "confirmed": True, "search": True})
                if len([v for v in res["violations"] if v.get("search")]) >= o.get("max_fail", 3):
                    break
            elif st == "error":
                errors.append(lab)
                break
            elif st == "unmodelled":
                errors.append(lab)
                if len(errors) >= 20:
                    break
            elif st == "skip":
                pass
        res["native"] = {"runs": n, "ok": ok, "checks": evals, "distinct": len(distinct), "samples": samples, "errors": errors}
    res["wall_s"] = time.time() - t0
    return res


from . import fsm  # noqa: E402

fsm.install(SymS, NatS)

from . import arrm  # noqa: E402

arrm.install(SymS, NatS)

from . import bytesm  # noqa: E402

bytesm.install(SymS, NatS)

from . import seqm  # noqa: E402

seqm.install(SymS, NatS)

from . import sqlm  # noqa: E402

sqlm.install(SymS, NatS)
