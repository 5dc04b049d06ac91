"""Interpreter of the real source: symbolic execution of Python functions taken from live modules of /repo."""
import ast, builtins, inspect, os, sys, types, functools, collections
import z3
from .core import *
from .core import V

REPO = os.path.realpath(os.environ.get("PYVC_REPO", "/repo"))
MISSING = object()
_ast_cache = {}
_fn_cache = {}


class Poison:
    """value of a local that the loop summary does not describe"""
    def __init__(self, why):
        self.why = why


class ConsumerExc(BreakIter):
    """a signal raised by the consumer of a generator: it does not pass through the generator's handlers"""
    def __init__(self, sig):
        self.sig = sig


class GenVal:
    """generator object of an interpreted generator function (consumed by internal iteration)"""
    def __init__(self, fn, env):
        self.fn, self.env, self.done = fn, env, False


class GenExp:
    def __init__(self, node, env):
        self.node, self.env = node, env
        self.first = None


class CtxGen:
    """@contextmanager object"""
    def __init__(self, gen):
        self.gen = gen


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ListIter:
    def __init__(self, items):
        self.items, self.pos = items, 0


class Env:
    __slots__ = ("vars", "parent", "globs", "fn", "nonlocals", "globalnames", "yield_cb", "eid", "cls")

    def __init__(self, globs, parent=None, fn=None):
        self.vars, self.parent, self.globs, self.fn = {}, parent, globs, fn
        self.nonlocals, self.globalnames = set(), set()
        self.yield_cb = None
        self.eid = None
        self.cls = None


SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))), "specs") + os.sep


@functools.lru_cache(maxsize=None)
def in_repo(filename):
    """is the code interpreted (repository code, or a specification function of /verif/specs)?"""
    f = os.path.realpath(filename)
    return f.startswith(REPO + os.sep) or f.startswith(SPECS)


def file_ast(fn):
    if fn not in _ast_cache:
        with open(fn) as f:
            src = f.read()
        tree = ast.parse(src, fn)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx.setdefault((n.name, line), n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault(("<lambda>", n.lineno), []).append(n)
        _ast_cache[fn] = idx
    return _ast_cache[fn]


def has_yield(node):
    if node not in _fn_cache:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _fn_cache[node] = r
    return _fn_cache[node]


PRIMS = (str, int, float, bool, bytes, type(None), complex, type(Ellipsis))


class LoopInfo:
    def __init__(self):
        self.writes = {}      # target -> kind
        self.dead = set()


class Interp:
    def __init__(self, run, ctx):
        self.run = run
        self.ctx = ctx                       # Context: models, contracts, options
        self.depth = 0
        self.frames = []
        self.exc_stack = []
        self.loop_invs = []                  # contract loop invariants: fn(I, env, node) -> [(name, getter)]
        run.interp = self

    # ------------------------------------------------------------------ exceptions
    def new_exc(self, cls, *args):
        o = Obj(cls)
        o.fields["args"] = tuple(args)
        self.run.objn += 1
        o.oid = self.run.objn
        return o

    def raise_(self, cls, *args):
        raise PyExc(self.new_exc(cls, *args))

    def unmodelled(self, module, cls, *args):
        """an exception because the code uses a stand-in of a specification (a class or function of module) in a way its contract does not mention"""
        e = self.new_exc(cls, *args)
        if str(module).split(".")[0] in ("specs", "pyvc") and not str(self.run.where()[0]).startswith("specs."):
            self.run.ghost.setdefault("unmodelled", []).append(e)
        raise PyExc(e)

    # ------------------------------------------------------------------ allocation
    def oid(self, o):
        if o.oid is None:
            self.run.objn += 1
            o.oid = self.run.objn
            self.run.ghost[("oid", o.oid)] = o
        return o.oid

    def plist(self, items=()):
        p = PList(items)
        self.oid(p)
        return p

    def pdict(self, pairs=()):
        d = PDict()
        self.oid(d)
        for k, v in pairs:
            self.dict_set(d, k, v, log=False)
        return d

    def obj(self, cls, **fields):
        o = Obj(cls, dict(fields))
        self.oid(o)
        return o

    def note(self, target, kind=None):
        if target[0] != "local":
            self.run.nwrites += 1
        for log in self.run.writelogs:
            if target not in log:
                log[target] = kind
                if target[0] == "local" and hasattr(log, "old") and kind is not None:
                    log.old[target] = kind.vars.get(target[2], MISSING)
                if target[0] == "field" and hasattr(log, "old") and isinstance(kind, Obj):
                    log.old[target] = kind.fields.get(target[2], MISSING)

    # ------------------------------------------------------------------ lifting of live values
    def lift(self, v):
        if isinstance(v, PRIMS) or isinstance(v, (Sym, Obj, PList, PDict, PSet, Func, Bound, Model, ModelObj, SymBytes)):
            return v
        t = type(v)
        if t is tuple:
            return tuple(self.lift(x) for x in v)
        memo = self.run.lift_memo
        k = id(v)
        if k in memo:
            return memo[k]
        if k in self.ctx.live:
            return self.ctx.live[k](self, v) if callable(self.ctx.live[k]) else self.ctx.live[k]
        if t is list:
            r = memo[k] = self.plist()
            r.items.extend(self.lift(x) for x in v)
        elif t is dict or t is collections.OrderedDict:
            r = memo[k] = self.pdict()
            for a, b in v.items():
                self.dict_set(r, self.lift(a), self.lift(b), log=False)
        elif t in (set, frozenset):
            r = memo[k] = PSet([self.lift(x) for x in v])
        elif isinstance(v, BaseException):
            r = memo[k] = self.obj(t, args=self.lift(v.args))
        elif isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
                            types.MethodType, staticmethod, classmethod, property)):
            return v
        elif self.is_repo_class(t):
            r = memo[k] = self.obj(t)
            if isinstance(v, dict):
                r.dictpart = self.pdict()
                for a, b in dict.items(v):
                    self.dict_set(r.dictpart, self.lift(a), self.lift(b), log=False)
            if isinstance(v, tuple):
                r.tup = tuple(self.lift(x) for x in v)
            for a, b in getattr(v, "__dict__", {}).items():
                r.fields[a] = self.lift(b)
        else:
            return v
        self.run.keepalive.append(v)
        return r

    @staticmethod
    def is_repo_class(t):
        m = sys.modules.get(getattr(t, "__module__", None))
        f = getattr(m, "__file__", None)
        return bool(f) and in_repo(f)

    # ------------------------------------------------------------------ functions
    def func_of(self, f):
        """Func for a live python function"""
        code = f.__code__
        idx = file_ast(code.co_filename)
        node = idx.get((code.co_name, code.co_firstlineno))
        if isinstance(node, list):
            if len(node) != 1:
                node = [n for n in node if [a.arg for a in n.args.args] == list(code.co_varnames[:code.co_argcount])]
            if len(node) != 1:
                raise Unsupported("ambiguous lambda source")
            node = node[0]
        if node is None:
            raise Unsupported(f"no source for {f.__qualname__}")
        env = Env(f.__globals__)
        if f.__closure__:
            for name, cell in zip(code.co_freevars, f.__closure__):
                try:
                    c = cell.cell_contents
                except ValueError:
                    continue
                if name == "__class__":
                    env.cls = c
                env.vars[name] = self.lift(c)
        defaults = tuple(self.lift(d) for d in (f.__defaults__ or ()))
        kwd = {k: self.lift(d) for k, d in (f.__kwdefaults__ or {}).items()}
        fn = Func(node, env, f.__globals__, f.__name__, f"{f.__module__}.{f.__qualname__}", defaults, kwd, live=f)
        return fn

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Model):
            self.run.ex.models_used.add(f.name)
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.lift(f.__self__)] + args, kwargs)
        c = self.ctx.contracts.get(f) if self._hashable(f) else None
        if c is not None and f not in self.ctx.inline:
            self.run.ex.models_used.add("contract:" + getattr(f, "__qualname__", str(f)))
            return c(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            if in_repo(f.__code__.co_filename):
                return self.call_func(self.func_of(f), args, kwargs)
            w = getattr(f, "__wrapped__", None)
            if w is not None and f.__code__.co_filename.endswith("contextlib.py"):
                g = self.call(w, args, kwargs)
                if not isinstance(g, GenVal):
                    raise Unsupported("contextmanager of non-generator")
                return CtxGen(g)
            if w is not None and f.__code__.co_filename.endswith("deprecation.py"):
                self.run.ex.models_used.add("deprecation.deprecated is transparent")
                return self.call(w, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = {k: self.lift(v) for k, v in f.keywords.items()}
            kw.update(kwargs)
            return self.call(f.func, [self.lift(a) for a in f.args] + args, kw)
        if isinstance(f, Obj):
            m = self.class_lookup(f.cls, "__call__")
            if m is not MISSING:
                return self.call(self.bind(m, f), args, kwargs)
        if isinstance(f, ModelObj) and hasattr(f, "call"):
            return f.call(self, args, kwargs)
        if isinstance(f, staticmethod):
            return self.call(f.__func__, args, kwargs)
        m = self.ctx.builtin(f)
        if m is not None:
            return m(self, args, kwargs)
        raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', repr(f)[:80])}")

    @staticmethod
    def _hashable(f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        npos = len(pos)
        kwargs = dict(kwargs)
        for i, name in enumerate(pos):
            if i < len(args):
                if name in kwargs:
                    self.unmodelled(f.qual, TypeError, f"multiple values for argument {name}")
                env.vars[name] = args[i]
            elif name in kwargs:
                env.vars[name] = kwargs.pop(name)
            else:
                j = i - (npos - len(f.defaults))
                if j < 0:
                    self.unmodelled(f.qual, TypeError, f"missing argument {name} of {f.name}")
                env.vars[name] = f.defaults[j]
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args[npos:])
        elif len(args) > npos:
            self.unmodelled(f.qual, TypeError, f"too many arguments for {f.name}")
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env.vars[k.arg] = kwargs.pop(k.arg)
            elif k.arg in f.kwdefaults:
                env.vars[k.arg] = f.kwdefaults[k.arg]
            else:
                self.unmodelled(f.qual, TypeError, f"missing keyword argument {k.arg} of {f.name}")
        if a.kwarg:
            env.vars[a.kwarg.arg] = self.pdict(kwargs.items())
        elif kwargs:
            self.unmodelled(f.qual, TypeError, f"unexpected keyword argument {list(kwargs)} of {f.name}")

    def call_func(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported("call depth")
        if f.live is not None and in_repo(f.live.__code__.co_filename) and f.live.__code__.co_filename.startswith(REPO):
            self.run.ex.functions.add(f.qual)
        env = Env(f.globs, f.env, f)
        env.cls = f.env.cls if f.env is not None else None
        self.run.objn += 1
        env.eid = self.run.objn
        self.run.ghost.setdefault("envs", []).append(env)
        self.bind_args(f, args, kwargs, env)
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, env)
            finally:
                self.depth -= 1
        g = None
        if has_yield(f.node):
            g = GenVal(f, env)
            if f.live is not None and False:
                pass
            return g
        return self.run_body(f, env)

    def run_body(self, f, env):
        self.depth += 1
        self.frames.append(f)
        try:
            self.exec_block(f.node.body, env)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            self.frames.pop()
            self.depth -= 1

    def make_closure(self, node, env, name):
        a = node.args
        defaults = tuple(self.eval(d, env) for d in a.defaults)
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, env, env.globs, name, (env.fn.qual + "." if env.fn else "") + name, defaults, kwd)

    # ------------------------------------------------------------------ classes
    def class_lookup(self, cls, name):
        g = self.run.ghost
        for c in cls.__mro__:
            ov = g.get(("classattr", c, name), MISSING)
            if ov is not MISSING and not isinstance(ov, (Func, Bound, Model, types.FunctionType)):
                return ov
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def class_owner(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c
        return None

    def bind(self, m, o, cls=None):
        if isinstance(m, staticmethod):
            return m.__func__
        if isinstance(m, classmethod):
            return Bound(m.__func__, cls or o.cls)
        if isinstance(m, (types.FunctionType, Func, Model)):
            return Bound(m, o)
        if isinstance(m, property):
            return self.call(m.fget, [o])
        if isinstance(m, functools.cached_property):
            return self.call(m.func, [o])
        if isinstance(m, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return Bound(Model(lambda I, a, k, m=m: I.slot(m, a, k), f"{m.__qualname__}"), o)
        return self.lift(m)

    def slot(self, m, args, kwargs):
        """C-level method of a builtin base class applied to an Obj (dict subclasses, object, exceptions)"""
        o = args[0]
        name = m.__name__
        base = m.__objclass__
        if base is dict and isinstance(o, Obj) and o.dictpart is not None:
            if name == "__init__":
                return self.dict_update(o.dictpart, args[1:], kwargs)
            if name == "__eq__":
                b = args[1]
                b = b.dictpart if isinstance(b, Obj) and b.dictpart is not None else b
                return self.eq(o.dictpart, b) if isinstance(b, PDict) else False
            if name == "__ne__":
                b = args[1]
                b = b.dictpart if isinstance(b, Obj) and b.dictpart is not None else b
                return neg(self.eq(o.dictpart, b)) if isinstance(b, PDict) else True
            if name == "__getitem__":
                return self.getitem(o.dictpart, args[1])
            if name == "__setitem__":
                return self.dict_set(o.dictpart, args[1], args[2])
            if name == "__contains__":
                return self.contains(o.dictpart, args[1])
            if name == "__len__":
                return self.call(self.getattr(o.dictpart, "__len__"), [])
            if name == "copy":
                return self.pdict([(k if not isinstance(k, SymKey) else k.v, v) for k, v in o.dictpart.d.items()])
            return self.call(self.getattr(o.dictpart, name), args[1:], kwargs)
        if name == "__init__" and base in (object,):
            return None
        if name == "__init__" and isinstance(o, Obj) and issubclass(o.cls, BaseException):
            o.fields["args"] = tuple(args[1:])
            return None
        if name in ("__str__", "__repr__"):
            return self.to_str(o)
        if base is object and name == "__eq__":
            return args[0] is args[1]
        if base is object and name == "__ne__":
            return neg(self.eq(args[0], args[1]))
        if base is object and name == "__setattr__":
            return self.setattr(o, args[1], args[2])
        raise Unsupported(f"slot {base.__name__}.{name}")

    def instantiate(self, cls, args, kwargs):
        m = self.ctx.builtin(cls)
        if m is not None:
            return m(self, args, kwargs)
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            flds = cls._fields
            vals = list(args)
            dflt = getattr(cls, "_field_defaults", {})
            for f in flds[len(vals):]:
                if f in kwargs:
                    vals.append(kwargs[f])
                elif f in dflt:
                    vals.append(self.lift(dflt[f]))
                else:
                    self.raise_(TypeError, f"missing {f}")
            if len(vals) > len(flds):
                self.raise_(TypeError, "too many fields")
            o = self.obj(cls)
            o.tup = tuple(vals)
            o.fields.update(zip(flds, vals))
            return o
        if issubclass(cls, BaseException):
            o = self.new_exc(cls, *args)
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType) and in_repo(init.__code__.co_filename):
                self.call(init, [o] + list(args), kwargs)
            return o
        if self.is_repo_class(cls):
            if getattr(cls, "__abstractmethods__", None):
                self.raise_(TypeError, f"Can't instantiate abstract class {cls.__name__}")
            o = self.obj(cls)
            if issubclass(cls, dict):
                o.dictpart = self.pdict()
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType):
                if in_repo(init.__code__.co_filename):
                    self.call(init, [o] + list(args), kwargs)
                else:
                    mm = self.ctx.contracts.get(init)
                    if mm is None:
                        raise Unsupported(f"constructor {init.__qualname__}")
                    mm(self, [o] + list(args), kwargs)
            elif issubclass(cls, dict):
                self.dict_update(o.dictpart, args, kwargs)
            elif args or kwargs:
                self.raise_(TypeError, f"{cls.__name__}() takes no arguments")
            return o
        raise Unsupported(f"instantiate {cls.__module__}.{cls.__qualname__}")

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not MISSING and issubclass(e.value.cls, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.pdict(o.fields.items())
            m = self.class_lookup(o.cls, name) if isinstance(o.cls, type) else MISSING
            if isinstance(m, property):
                return self.call(m.fget, [o])
            if name in o.fields:
                return self.read_field(o, name)
            if m is not MISSING:
                return self.bind(m, o)
            g = self.class_lookup(o.cls, "__getattr__")
            if g is not MISSING:
                return self.call(g, [o, name])
            self.unmodelled(getattr(o.cls, "__module__", ""), AttributeError, f"{o.cls.__name__} object has no attribute {name}")
        if isinstance(o, ModelObj):
            return o.getattr(self, name)
        if isinstance(o, SuperVal):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], o.obj)
            self.raise_(AttributeError, f"super has no attribute {name}")
        if isinstance(o, types.ModuleType):
            if ("global", id(o.__dict__), name) in self.run.ghost:
                return self.run.ghost[("global", id(o.__dict__), name)]
            try:
                return self.lift(getattr(o, name))
            except AttributeError:
                self.raise_(AttributeError, f"module has no attribute {name}")
        if isinstance(o, type):
            ov = self.run.ghost.get(("classattr", o, name), MISSING)
            if ov is not MISSING:
                return ov
            if name in ("__name__", "__qualname__", "__module__", "__doc__", "__mro__"):
                return getattr(o, name)
            m = self.class_lookup(o, name)
            if m is MISSING:
                try:
                    return self.lift(getattr(o, name))
                except AttributeError:
                    self.raise_(AttributeError, f"type {o.__name__} has no attribute {name}")
            if isinstance(m, staticmethod):
                return m.__func__
            if isinstance(m, classmethod):
                return Bound(m.__func__, o)
            if isinstance(m, (types.FunctionType, property)):
                return m
            if isinstance(m, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return Model(lambda I, a, k, m=m: I.slot(m, a, k), m.__qualname__)
            if isinstance(m, types.ClassMethodDescriptorType):
                return getattr(o, name)
            return self.lift(m)
        if isinstance(o, (Func, Bound)):
            f = o.fn if isinstance(o, Bound) else o
            if name in ("__name__", "__qualname__"):
                return f.name if isinstance(f, Func) else getattr(f, name)
            if isinstance(f, Func) and name in f.attrs:
                return f.attrs[name]
            if name == "__self__" and isinstance(o, Bound):
                return o.self_
            self.raise_(AttributeError, name)
        m = self.ctx.method(self, o, name)
        if m is not None:
            return m
        if isinstance(o, PRIMS) or isinstance(o, (tuple, PList, PDict, PSet, Sym)):
            self.raise_(AttributeError, f"{self.type_of(o).__name__} object has no attribute {name}")
        raise Unsupported(f"attribute {name} of {type(o).__module__}.{type(o).__name__}")

    def read_field(self, o, name):
        g = o.guard
        if g is not None and name in g.fields:
            return g.on_read(self, o, name)
        v = o.fields[name]
        if isinstance(v, Poison):
            raise Unsupported(f"field {name}: {v.why}")
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, name) if isinstance(o.cls, type) else MISSING
            if isinstance(m, property):
                if m.fset is None:
                    self.raise_(AttributeError, f"can't set {name}")
                self.call(m.fset, [o, v])
                return
            g = o.guard
            if o.frozen:
                raise Unsupported(f"a field of a value read from an abstract collection is set ({name})")
            if g is not None and name in g.fields:
                g.on_write(self, o, name, v)
            self.note(("field", self.oid(o), name), o)
            o.fields[name] = v
        elif isinstance(o, ModelObj):
            o.setattr(self, name, v)
        elif isinstance(o, type):
            self.run.ghost[("classattr", o, name)] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        else:
            raise Unsupported(f"setattr on {type(o).__name__}")

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        if isinstance(v, bool):
            return bool
        if isinstance(v, Sym):
            if v.pytype is not None:
                return v.pytype
            return {"int": int, "real": float, "bool": bool, "str": str}.get(v.kind, object)
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, PDeque):
            return collections.deque
        if isinstance(v, PList):
            return list
        if isinstance(v, PDict):
            return getattr(v, "pytype", None) or dict
        if isinstance(v, PSet):
            return set
        if isinstance(v, SymBytes):
            return bytes
        if isinstance(v, (Func, )):
            return types.FunctionType
        if isinstance(v, (Bound,)):
            return types.MethodType
        if isinstance(v, ModelObj):
            return v.pytypes[0] if v.pytypes else type(v)
        return type(v)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if not isinstance(cls, type):
            if isinstance(cls, ModelObj) and hasattr(cls, "instancecheck"):
                return cls.instancecheck(self, v)
            raise Unsupported(f"isinstance with {cls!r}")
        if isinstance(v, ModelObj):
            return v.isinstance(cls)
        if isinstance(v, Sym) and v.kind == "opaque" and v.pytype is None:
            if v.meta and "isinstance" in v.meta:
                return v.meta["isinstance"](cls)
            return cls is object
        t = self.type_of(v)
        return issubclass(t, cls)

    # ------------------------------------------------------------------ truth, equality
    def truth(self, v):
        """bool or z3 Bool"""
        if isinstance(v, Sym):
            if v.kind == "bool":
                return v.t
            if v.kind == "int":
                return v.t != 0
            if v.kind == "real":
                return v.t != 0
            if v.kind == "str":
                from . import strs
                return strs.nonempty(self, v)
            if v.kind == "opaque":
                if v.meta and v.meta.get("truthy"):
                    return True
                raise Unsupported("truth of opaque value")
        if isinstance(v, PList):
            return len(v.items) > 0
        if isinstance(v, PDict) and getattr(v, "abs", None) is not None:
            return v.abs.view(self, "keys").truth(self)
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, Obj):
            if v.tup is not None:
                return len(v.tup) > 0
            m = self.class_lookup(v.cls, "__bool__")
            if m is not MISSING and isinstance(m, types.FunctionType):
                return self.truth(self.call(self.bind(m, v)))
            m = self.class_lookup(v.cls, "__len__")
            if m is not MISSING and isinstance(m, types.FunctionType):
                return self.truth(self.call(self.bind(m, v)))
            if v.dictpart is not None:
                return self.truth(v.dictpart)
            return True
        if isinstance(v, ModelObj):
            f = getattr(v, "truth", None)
            return f(self) if f else True
        if isinstance(v, (Func, Bound, Model, GenVal, type)):
            return True
        if isinstance(v, SymBytes):
            from . import bytesm
            return bytesm.truth(self, v)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return bool(v)

    def decide(self, v):
        return self.run.branch(self.truth(v))

    def eq(self, a, b):
        """python == as bool | Sym bool"""
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and isinstance(x.cls, type):
                    m = self.class_lookup(x.cls, "__eq__")
                    if isinstance(m, types.FunctionType):
                        r = self.call(m, [x, y])
                        if r is not NotImplemented:
                            return r
                        continue
            if isinstance(a, Obj) and isinstance(b, Obj):
                if a is b:
                    return True
                if a.dictpart is not None and b.dictpart is not None:
                    return self.eq(a.dictpart, b.dictpart)
                if a.tup is not None and b.tup is not None:
                    return self.eq(a.tup, b.tup)
                return False
            if isinstance(a, Obj) and a.tup is not None:
                return self.eq(a.tup, b)
            if isinstance(b, Obj) and b.tup is not None:
                return self.eq(a, b.tup)
            if isinstance(a, Obj) and a.dictpart is not None:
                return self.eq(a.dictpart, b)
            if isinstance(b, Obj) and b.dictpart is not None:
                return self.eq(a, b.dictpart)
            return False
        if isinstance(a, ModelObj) and hasattr(a, "eq"):
            return a.eq(self, b)
        if isinstance(b, ModelObj) and hasattr(b, "eq"):
            return b.eq(self, a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        if isinstance(a, PList) or isinstance(b, PList):
            if not (isinstance(a, PList) and isinstance(b, PList)) or self.type_of(a) is not self.type_of(b) or len(a.items) != len(b.items):
                return False
            return conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return False
            return conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PDict) or isinstance(b, PDict):
            if not (isinstance(a, PDict) and isinstance(b, PDict)) or len(a.d) != len(b.d):
                return False
            res = []
            for k, x in a.d.items():
                kk = k.v if isinstance(k, SymKey) else k
                y = self.dict_find(b, kk)
                if y is MISSING:
                    return False
                res.append(self.eq(x, b.d[y]))
            return conj(res)
        if isinstance(a, PSet) or isinstance(b, PSet):
            if not (isinstance(a, PSet) and isinstance(b, PSet)):
                return False
            return conj([self.contains(b, x) for x in a.items] + [self.contains(a, x) for x in b.items])
        if isinstance(a, SymBytes) or isinstance(b, SymBytes):
            from . import bytesm
            return bytesm.eq(self, a, b)
        if isinstance(a, (Bound,)) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        if isinstance(a, (Func, Model)) or isinstance(b, (Func, Model)):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            return a is b

    def sym_eq(self, a, b):
        if is_num(a) and is_num(b):
            ka = a.kind if isinstance(a, Sym) else ("real" if isinstance(a, float) else "int")
            kb = b.kind if isinstance(b, Sym) else ("real" if isinstance(b, float) else "int")
            if "real" in (ka, kb):
                return mk("bool", real_term(a) == real_term(b))
            if ka == "bool" and kb == "bool":
                return mk("bool", bool_term(a) == bool_term(b))
            return mk("bool", int_term(a) == int_term(b))
        sa = isinstance(a, str) or (isinstance(a, Sym) and a.kind == "str")
        sb = isinstance(b, str) or (isinstance(b, Sym) and b.kind == "str")
        if sa and sb:
            from . import strs
            return strs.eq(self, a, b)
        oa = isinstance(a, Sym) and a.kind == "opaque"
        ob = isinstance(b, Sym) and b.kind == "opaque"
        if oa and ob:
            return mk("bool", a.t == b.t)
        if oa or ob:
            x, y = (a, b) if oa else (b, a)
            if x.meta and "distinct" in x.meta and not isinstance(y, Sym):
                return False
            if x.meta and "eq" in x.meta:
                return x.meta["eq"](self, x, y)
            try:
                return mk("bool", x.t == self.toV(y))
            except Unsupported:
                raise Unsupported("equality of opaque value")
        return False

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, PRIMS) and isinstance(b, PRIMS) and type(a) is type(b):
            return a == b if isinstance(a, (bool, type(None))) else a is b or a == b
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.kind == "bool" and b.kind == "bool":
                return mk("bool", a.t == b.t)
            if a.kind == "opaque" and b.kind == "opaque":
                return mk("bool", a.t == b.t)
            raise Unsupported("identity of symbolic values")
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if x.kind == "bool" and isinstance(y, bool):
                return mk("bool", x.t == y)
            return False
        return False

    def toV(self, v):
        """term of sort V denoting the (hashable or JSON) value"""
        if v is None:
            return V.VNone
        if isinstance(v, bool):
            return V.VBool(z3.BoolVal(v))
        if isinstance(v, int):
            return V.VInt(z3.IntVal(v))
        if isinstance(v, float):
            return V.VReal(rat(v))
        if isinstance(v, str):
            return V.VStr(z3.StringVal(v))
        if isinstance(v, Sym):
            if v.kind == "bool":
                return V.VBool(v.t)
            if v.kind == "int":
                return V.VInt(v.t)
            if v.kind == "real":
                return V.VReal(v.t)
            if v.kind == "opaque":
                return v.t
            if v.kind == "str":
                if v.parts is not None and len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] == "v":
                    return v.parts[0][1]
                from . import strs
                return V.VStr(strs.term(self, v))
        if isinstance(v, Obj) and v.tup is not None:
            v = v.tup
        if isinstance(v, (tuple, PList)):
            r = V.VNil
            for x in reversed(v if isinstance(v, tuple) else v.items):
                r = V.VCons(self.toV(x), r)
            return r
        if isinstance(v, Obj) and v.dictpart is not None:
            v = v.dictpart
        if isinstance(v, PDict):
            ks = list(v.d)
            if all(isinstance(k, str) for k in ks):
                ks = sorted(ks)
                r = V.VNil
                for k in reversed(ks):
                    r = V.VCons(V.VCons(V.VStr(z3.StringVal(k)), self.toV(v.d[k])), r)
                return V.VDict(r)
        if isinstance(v, ModelObj) and hasattr(v, "toV"):
            return v.toV(self)
        if isinstance(v, Obj) and v.oid is not None:
            return V.VObj(z3.IntVal(v.oid))
        if isinstance(v, bytes):
            return V.VCons(V.VObj(z3.IntVal(-1)), V.VStr(z3.StringVal(v.decode("latin1"))))
        raise Unsupported(f"no canonical term for {type(v).__name__}")

    # ------------------------------------------------------------------ dictionaries
    def is_concrete(self, k):
        if isinstance(k, PRIMS) or isinstance(k, type):
            return True
        if isinstance(k, tuple):
            return all(self.is_concrete(x) for x in k)
        if isinstance(k, (Func, Model, types.FunctionType)):
            return True
        return False

    def dict_find(self, d, k):
        """the stored key equal to k, or MISSING (may branch)"""
        if isinstance(k, Poison):
            raise Unsupported(k.why)
        if getattr(d, "abs", None) is not None:
            raise Unsupported("lookup in a dictionary of unbounded size")
        if isinstance(k, (PList, PDict, PSet)):
            self.raise_(TypeError, "unhashable type")
        if self.is_concrete(k):
            try:
                if k in d.d:
                    return k
            except TypeError:
                pass
            if d.nsym == 0:
                return MISSING
            cand = [x for x in d.d if isinstance(x, SymKey)]
        else:
            cand = list(d.d)
        for x in cand:
            xv = x.v if isinstance(x, SymKey) else x
            if self.run.branch(self.truth(self.eq(xv, k))):
                return x
        return MISSING

    def dict_get(self, d, k, default=None):
        if getattr(d, "abs", None) is not None:
            w = d.abs.find(self, k)
            return default if w is None else d.abs.value(self, w)
        x = self.dict_find(d, k)
        return default if x is MISSING else d.d[x]

    def dict_set(self, d, k, v, log=True):
        if getattr(d, "abs", None) is not None:
            self.note(("dict", self.oid(d)), d)
            return d.abs.set(self, k, v)
        x = self.dict_find(d, k)
        if x is MISSING:
            if self.is_concrete(k):
                x = k
            else:
                x = SymKey(k)
                d.nsym += 1
        if log:
            self.note(("dict", self.oid(d)), d)
        if getattr(d, "hook", None):
            d.hook(self, "set", k, v)
        d.d[x] = v

    def dict_del(self, d, k):
        x = self.dict_find(d, k)
        if x is MISSING:
            self.raise_(KeyError, k)
        self.note(("dict", self.oid(d)), d)
        if isinstance(x, SymKey):
            d.nsym -= 1
        return d.d.pop(x)

    def dict_update(self, d, args, kwargs):
        for a in args:
            if isinstance(a, Obj) and a.dictpart is not None:
                a = a.dictpart
            if isinstance(a, PDict) and getattr(a, "abs", None) is not None:
                from . import seqm
                seqm.AbsDict.copy_into(self, a, d)
                continue
            if isinstance(a, PDict):
                for k, v in list(a.d.items()):
                    self.dict_set(d, k.v if isinstance(k, SymKey) else k, v)
            elif isinstance(a, ModelObj) and hasattr(a, "as_pairs"):
                for k, v in a.as_pairs(self):
                    self.dict_set(d, k, v)
            elif a is None:
                self.raise_(TypeError, "'NoneType' object is not iterable")
            elif isinstance(a, (Sym, str, int, float)) and not (isinstance(a, Sym) and a.kind == "opaque"):
                self.raise_(ValueError if isinstance(a, str) else TypeError, "cannot update dict from scalar")
            else:
                for p in self.to_list(a):
                    kv = self.to_list(p)
                    if len(kv) != 2:
                        self.raise_(ValueError, "dictionary update sequence")
                    self.dict_set(d, kv[0], kv[1])
        for k, v in kwargs.items():
            self.dict_set(d, k, v)

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(k, Poison):
            raise Unsupported(k.why)
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, "__getitem__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [o, k])
            if o.dictpart is not None:
                return self.getitem(o.dictpart, k)
            if o.tup is not None:
                return self.getitem(o.tup, k)
            self.raise_(TypeError, "object is not subscriptable")
        if isinstance(o, PDict) and getattr(o, "abs", None) is not None:
            w = o.abs.find(self, k)
            if w is None:
                self.raise_(KeyError, k)
            return o.abs.value(self, w)
        if isinstance(o, PDict):
            x = self.dict_find(o, k)
            if x is MISSING:
                if o.default_factory is not None:
                    v = self.call(o.default_factory)
                    self.dict_set(o, k, v)
                    return v
                self.raise_(KeyError, k)
            return o.d[x]
        if isinstance(o, (PList, tuple)):
            items = o.items if isinstance(o, PList) else o
            if isinstance(k, slice):
                if isinstance(o, PDeque):
                    self.raise_(TypeError, "sequence index must be integer, not 'slice'")
                r = items[self.conc_slice(k)]
                return self.plist(r) if isinstance(o, PList) else tuple(r)
            if isinstance(k, bool) or isinstance(k, int):
                try:
                    return items[k]
                except IndexError:
                    self.raise_(IndexError, "index out of range")
            if isinstance(k, Sym) and k.kind == "int":
                for i in range(-len(items), len(items)):
                    if self.run.branch(k.t == i):
                        return items[i]
                self.raise_(IndexError, "index out of range")
            self.raise_(TypeError, "indices must be integers")
        if isinstance(o, str) or (isinstance(o, Sym) and o.kind == "str"):
            from . import strs
            return strs.getitem(self, o, k)
        if isinstance(o, (bytes, SymBytes)):
            from . import bytesm
            return bytesm.getitem(self, o, k)
        if isinstance(o, ModelObj) and hasattr(o, "getitem"):
            return o.getitem(self, k)
        if o is None:
            self.raise_(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(o, type):
            return o
        raise Unsupported(f"subscript of {type(o).__name__}")

    def conc_slice(self, k):
        if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
            raise Unsupported("symbolic slice")
        return k

    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, "__setitem__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [o, k, v])
            if o.dictpart is not None:
                return self.dict_set(o.dictpart, k, v)
        if isinstance(o, PDict):
            return self.dict_set(o, k, v)
        if isinstance(o, PList):
            self.note(("list", self.oid(o)), o)
            if isinstance(k, int):
                try:
                    o.items[k] = v
                except IndexError:
                    self.raise_(IndexError, "assignment index out of range")
                return
            if isinstance(k, slice):
                o.items[self.conc_slice(k)] = self.to_list(v)
                return
        if isinstance(o, ModelObj) and hasattr(o, "setitem"):
            return o.setitem(self, k, v)
        if isinstance(o, tuple) or o is None or isinstance(o, str):
            self.raise_(TypeError, "object does not support item assignment")
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def delitem(self, o, k):
        if isinstance(o, Obj) and o.dictpart is not None:
            return self.dict_del(o.dictpart, k)
        if isinstance(o, PDict):
            return self.dict_del(o, k)
        if isinstance(o, PList) and isinstance(k, (int, slice)):
            self.note(("list", self.oid(o)), o)
            try:
                del o.items[k]
            except IndexError:
                self.raise_(IndexError, "index")
            return
        if isinstance(o, ModelObj) and hasattr(o, "delitem"):
            return o.delitem(self, k)
        raise Unsupported(f"del item of {type(o).__name__}")

    def contains(self, o, x):
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, "__contains__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [o, x])
            if o.dictpart is not None:
                return self.contains(o.dictpart, x)
            if o.tup is not None:
                return disj([self.eq(x, y) for y in o.tup])
        if isinstance(o, PDict) and getattr(o, "abs", None) is not None:
            return o.abs.find(self, x) is not None
        if isinstance(o, PDict):
            return self.dict_find(o, x) is not MISSING
        if isinstance(o, (PList, tuple, PSet)):
            items = o if isinstance(o, tuple) else o.items
            return disj([True if x is y else self.eq(y, x) for y in items])
        if isinstance(o, str) or (isinstance(o, Sym) and o.kind == "str"):
            from . import strs
            return strs.contains(self, o, x)
        if isinstance(o, ModelObj) and hasattr(o, "contains"):
            return o.contains(self, x)
        if isinstance(o, (range,)) and isinstance(x, int):
            return x in o
        if o is None:
            self.raise_(TypeError, "argument of type 'NoneType' is not iterable")
        if isinstance(o, (frozenset, set)):
            return disj([self.eq(self.lift(y), x) for y in o])
        raise Unsupported(f"membership in {type(o).__name__}")

    # ------------------------------------------------------------------ iteration
    unaware = 0

    def gather(self, v, cb):
        """iteration by code that keeps what it has seen outside the program's state"""
        self.unaware += 1
        try:
            self.iterate(v, cb)
        finally:
            self.unaware -= 1

    def iterator(self, v):
        """what a program's object is iterated by"""
        if isinstance(v, Obj) and v.dictpart is None and v.tup is None:
            m = self.class_lookup(v.cls, "__iter__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [v])
        return v

    def iterate(self, v, cb):
        """internal iteration; cb may raise BreakIter"""
        v = self.iterator(v)
        if isinstance(v, PList):
            i = 0
            while i < len(v.items):
                cb(v.items[i])
                i += 1
            return
        if isinstance(v, GenVal):
            if v.done:
                return
            v.done = True
            f = v.fn
            def ycb(x):
                try:
                    cb(x)
                except (PyExc, ReturnSig, BreakSig, ContinueSig) as e:
                    raise ConsumerExc(e)
                return None
            v.env.yield_cb = ycb
            try:
                self.run_body(f, v.env)
            except ConsumerExc as e:
                raise e.sig
            return
        if isinstance(v, PDict) and getattr(v, "abs", None) is not None:
            return v.abs.view(self, "keys").iterate(self, cb)
        if isinstance(v, Obj) and v.dictpart is not None and getattr(v.dictpart, "abs", None) is not None and not isinstance(self.class_lookup(v.cls, "__iter__"), types.FunctionType):
            return v.dictpart.abs.view(self, "keys").iterate(self, cb)
        if isinstance(v, PDict):
            from .models import DictView
            return DictView(v, "keys").iterate(self, cb)
        if isinstance(v, GenExp):
            e2 = Env(v.env.globs, v.env, v.env.fn)
            self.comp(v.node.generators, 0, e2, lambda e: cb(self.eval(v.node.elt, e)), v.first)
            return
        if isinstance(v, ModelObj) and hasattr(v, "iterate"):
            return v.iterate(self, cb)
        if isinstance(v, ListIter):
            while v.pos < len(v.items):
                v.pos += 1
                cb(v.items[v.pos - 1])
            return
        for x in self.to_list(v):
            cb(x)

    def to_list(self, v):
        if isinstance(v, PList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PDict):
            return [k.v if isinstance(k, SymKey) else k for k in v.d]
        if isinstance(v, PSet):
            return list(v.items)
        if isinstance(v, (str, range, bytes)):
            return list(v)
        if isinstance(v, Obj):
            if v.tup is not None:
                return list(v.tup)
            m = self.class_lookup(v.cls, "__iter__")
            if isinstance(m, types.FunctionType):
                return self.to_list(self.call(m, [v]))
            if v.dictpart is not None:
                return self.to_list(v.dictpart)
            self.raise_(TypeError, "object is not iterable")
        if isinstance(v, (GenVal, GenExp, ListIter)):
            r = []
            self.gather(v, r.append)
            return r
        if isinstance(v, ModelObj) and hasattr(v, "to_list"):
            return v.to_list(self)
        if isinstance(v, Sym) and v.kind == "str":
            from . import strs
            return strs.chars(self, v)
        if isinstance(v, (list, set, frozenset, dict)):
            return [self.lift(x) for x in v]
        if v is None or isinstance(v, (int, float)) or (isinstance(v, Sym) and v.kind in ("int", "real", "bool")):
            self.raise_(TypeError, f"'{self.type_of(v).__name__}' object is not iterable")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported(f"iteration over {type(v).__name__}")

    # ------------------------------------------------------------------ strings
    def to_str(self, v):
        from . import strs
        return strs.to_str(self, v)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.run.loc = (env.fn.qual if env.fn else "?", s.lineno)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            self.store(t.id, self.iop(s.op, cur, self.eval(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(s.op, cur, self.eval(s.value, env)))

    def iop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, PList):
            self.note(("list", self.oid(a)), a)
            if getattr(a, "abs", None) is not None:
                for x in self.to_list(b):
                    a.abs.append(self, x)
                return a
            a.items.extend(self.to_list(b))
            return a
        if isinstance(a, Obj):
            from . import ops
            m = self.class_lookup(a.cls, "__i" + ops.DUNDER.get(type(op), "none") + "__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [a, b])
        if isinstance(a, ModelObj) and hasattr(a, "iop"):
            return a.iop(self, op, b)
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.to_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.plist(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                self.raise_(ValueError, "wrong number of values to unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load(t.id, env)
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                self.delitem(o, self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.fields:
                    self.note(("field", self.oid(o), t.attr), o)
                    del o.fields[t.attr]
                else:
                    self.raise_(AttributeError, t.attr)

    def x_If(self, s, env):
        if self.decide(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.decide(self.eval(s.test, env)):
            self.raise_(AssertionError, *( [self.eval(s.msg, env)] if s.msg else []))

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_(RuntimeError, "No active exception to reraise")
            raise PyExc(self.exc_stack[-1])
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = self.instantiate(e, [], {})
        if s.cause is not None:
            self.eval(s.cause, env)
        if not isinstance(e, Obj) or not issubclass(e.cls, BaseException):
            self.raise_(TypeError, "exceptions must derive from BaseException")
        raise PyExc(e)

    def x_Global(self, s, env):
        env.globalnames.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_FunctionDef(self, s, env):
        f = self.make_closure(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, env), [f])
        self.store(s.name, f, env)

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        # a class statement inside a function: a host class whose methods are interpreted closures
        ns = {}
        cenv = Env(env.globs, env, env.fn)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                if st.decorator_list:
                    raise Unsupported("decorated method of local class")
                ns[st.name] = None
        cls = type(s.name, tuple(b for b in bases if isinstance(b, type)), {"__module__": env.globs.get("__name__", "x")})
        menv = Env(env.globs, env, env.fn)
        menv.cls = cls
        LOCAL = self.run.ghost.setdefault("localclasses", {})
        methods = {}
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                methods[st.name] = self.make_closure(st, menv, st.name)
            elif isinstance(st, ast.Expr):
                pass
            elif isinstance(st, ast.Assign):
                cenv2 = Env(env.globs, env, env.fn)
                v = self.eval(st.value, cenv2)
                for t in st.targets:
                    methods[t.id] = v
            else:
                raise Unsupported("local class body")
        LOCAL[cls] = methods
        self.store(s.name, LocalClass(cls, methods, bases), env)

    def x_Import(self, s, env):
        import importlib
        for a in s.names:
            try:
                m = self.ctx.import_module(self, a.name)
            except ImportError as e:
                self.raise_(ImportError, str(e))
            if a.asname:
                self.store(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.ctx.import_module(self, top), env)

    def x_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            pkg = env.globs.get("__package__") or env.globs["__name__"].rpartition(".")[0]
            base = pkg.rsplit(".", s.level - 1)[0] if s.level > 1 else pkg
            name = base + ("." + name if name else "")
        try:
            m = self.ctx.import_module(self, name)
        except ImportError as e:
            self.raise_(ImportError, str(e))
        for a in s.names:
            if isinstance(m, types.ModuleType):
                if ("global", id(m.__dict__), a.name) in self.run.ghost:
                    v = self.run.ghost[("global", id(m.__dict__), a.name)]
                elif hasattr(m, a.name):
                    v = self.lift(getattr(m, a.name))
                else:
                    try:
                        v = self.ctx.import_module(self, name + "." + a.name)
                    except ImportError as e:
                        self.raise_(ImportError, str(e))
            else:
                v = self.getattr(m, a.name)
            self.store(a.asname or a.name, v, env)

    def x_With(self, s, env):
        self.with_items(s.items, 0, s.body, env)

    def with_items(self, items, i, body, env):
        if i == len(items):
            self.exec_block(body, env)
            return
        it = items[i]
        cm = self.eval(it.context_expr, env)
        def inner(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, env)
            self.with_items(items, i + 1, body, env)
        self.with_value(cm, inner)

    def with_value(self, cm, inner):
        if isinstance(cm, CtxGen):
            sig = []
            yielded = []
            def ycb(v):
                if yielded:
                    self.raise_(RuntimeError, "generator didn't stop")
                yielded.append(1)
                try:
                    inner(v)
                except (ReturnSig, BreakSig, ContinueSig) as e:
                    sig.append(e)
                return None
            cm.gen.env.yield_cb = ycb
            cm.gen.done = True
            self.run_body(cm.gen.fn, cm.gen.env)
            if not yielded:
                self.raise_(RuntimeError, "generator didn't yield")
            if sig:
                raise sig[0]
            return
        if isinstance(cm, ModelObj) and hasattr(cm, "enter"):
            v = cm.enter(self)
            try:
                inner(v)
            except PyExc as e:
                if cm.exit(self, e.value):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                cm.exit(self, None)
                raise
            cm.exit(self, None)
            return
        if isinstance(cm, Obj):
            v = self.call(self.getattr(cm, "__enter__"))
            ex = self.getattr(cm, "__exit__")
            try:
                inner(v)
            except PyExc as e:
                r = self.call(ex, [e.value.cls, e.value, None])
                if self.decide(r):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(ex, [None, None, None])
                raise
            self.call(ex, [None, None, None])
            return
        m = self.ctx.with_model(self, cm)
        if m is not None:
            return self.with_value(m, inner)
        raise Unsupported(f"with {type(cm).__name__}")

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        cls = self.eval(h.type, env)
                        cls = cls if isinstance(cls, tuple) else (cls,)
                        ok = any(isinstance(c, type) and issubclass(e.value.cls, c) for c in cls)
                    if ok:
                        if h.name:
                            self.store(h.name, e.value, env)
                        self.exc_stack.append(e.value)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig, BreakIter):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    # ------------------------------------------------------------------ loops
    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        if isinstance(it, ModelObj) and hasattr(it, "for_loop"):
            return it.for_loop(self, s, env)
        broke = []
        def cb(x):
            self.assign(s.target, x, env)
            try:
                self.exec_block(s.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                broke.append(1)
                raise BreakIter()
        try:
            self.iterate(it, cb)
        except BreakIter:
            if not broke:
                raise
            return
        self.exec_block(s.orelse, env)

    def endless(self, s, env):
        """while True, left by an exception of the harness: what an iteration changed (but for what belongs to the harness, whose
        state is arbitrary at the head of the loop) is unknown to the next one, so each stands for any iteration"""
        watermark = self.run.objn
        while True:
            log = {}
            self.run.writelogs.append(log)
            try:
                self.exec_block(s.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                return
            finally:
                self.run.writelogs.remove(log)
            for t, h in log.items():
                if t[0] == "local":
                    e = env
                    while e is not None and e is not h:
                        e = e.parent
                    if e is not None:
                        h.vars[t[2]] = Poison(f"{t[2]} is changed by an earlier iteration of an endless loop")
                elif t[1] is None or t[1] > watermark:
                    continue
                elif t[0] == "field":
                    if not getattr(h.cls, "__module__", "").startswith("specs."):
                        h.fields[t[2]] = Poison(f"{t[2]} is changed by an earlier iteration of an endless loop")
                elif t[0] != "model":
                    raise Unsupported(f"a {t[0]} is changed in an endless loop")

    def x_While(self, s, env):
        n = 0
        if self.ctx.options.get("forever") and isinstance(s.test, ast.Constant) and s.test.value:
            return self.endless(s, env)
        while True:
            c = self.truth(self.eval(s.test, env))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if not isinstance(c, bool):
                from . import loops
                if not n and self.run.valid(z3.Not(c)):
                    self.exec_block(s.orelse, env)
                    return
                return loops.cut_while(self, s, env)
            if not c:
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 80:
                raise Unsupported("loop unrolled too often")
            try:
                self.exec_block(s.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                return

    # ------------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        if name not in env.globalnames:
            while e is not None:
                if name in e.vars:
                    v = e.vars[name]
                    if isinstance(v, Poison):
                        raise Unsupported(f"{name}: {v.why}")
                    return v
                e = e.parent
        if name == "__class__" and env.cls:
            return env.cls
        g = env.globs
        k = ("global", id(g), name)
        if k in self.run.ghost:
            return self.run.ghost[k]
        if name in g:
            return self.lift(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def store(self, name, v, env):
        if name in env.globalnames:
            self.note(("global", None, name), env)
            self.run.ghost[("global", id(env.globs), name)] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.note(("local", e.eid, name), e)
                    e.vars[name] = v
                    return
                e = e.parent
        self.note(("local", env.eid, name), env)
        env.vars[name] = v

    # ------------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.load(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        return self.getitem(o, self.eval(n.slice, env))

    def e_Slice(self, n, env):
        return slice(*(self.eval(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)))

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, elts, env):
        r = []
        for e in elts:
            if isinstance(e, ast.Starred):
                r.extend(self.to_list(self.eval(e.value, env)))
            else:
                r.append(self.eval(e, env))
        return r

    def e_List(self, n, env):
        return self.plist(self.elts(n.elts, env))

    def e_Set(self, n, env):
        s = PSet()
        for x in self.elts(n.elts, env):
            if not self.run.branch(self.truth(self.contains(s, x))):
                s.items.append(x)
        return s

    def e_Dict(self, n, env):
        d = self.pdict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, [self.eval(v, env)], {})
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env), log=False)
        return d

    def e_Lambda(self, n, env):
        return self.make_closure(n, env, "<lambda>")

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.decide(self.eval(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.store(n.target.id, v, env)
        return v

    def e_BoolOp(self, n, env):
        """operands that are plain booleans are joined into one term instead of splitting the path; an operand
        that raises, writes or cannot be evaluated without the earlier operands makes the expression split"""
        is_and = isinstance(n.op, ast.And)
        run = self.run
        acc = []
        merge = id(n) not in run.ex.nomerge
        last = len(n.values) - 1
        for i, e in enumerate(n.values):
            w = run.nwrites
            try:
                v = self.eval(e, env)
            except PyExc:
                if acc:
                    run.ex.nomerge.add(id(n))
                    raise Restart()
                raise
            except Unsupported:
                if acc:
                    run.ex.nomerge.add(id(n))
                    raise Restart()
                raise
            if acc and run.nwrites != w:
                run.ex.nomerge.add(id(n))
                raise Restart()
            sb = isinstance(v, Sym) and v.kind == "bool"
            if merge and sb:
                if z3.is_true(v.t):
                    v = True
                elif z3.is_false(v.t):
                    v = False
                else:
                    acc.append(v)
                    continue
            if v is True or v is False:
                if v is not is_and:
                    if not acc:
                        return v
                    # short-circuits here unless an earlier operand already did: same value
                    return v
                if i == last:
                    return (conj(acc) if is_and else disj(acc)) if acc else v
                continue
            # not a plain boolean: its own value may be the result
            if acc:
                t = self.decide(conj(acc) if is_and else disj(acc))
                if t is not is_and:
                    return t
                acc = []
            if i == last:
                return v
            t = self.decide(v)
            if t is not is_and:
                return (not is_and) if sb else v
        return (conj(acc) if is_and else disj(acc)) if acc else is_and

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mk("bool", z3.Not(t))
        if isinstance(v, Sym):
            if isinstance(n.op, ast.USub):
                if v.kind == "int":
                    return mk("int", -v.t)
                if v.kind == "real":
                    return mk("real", -v.t)
            if isinstance(n.op, ast.UAdd) and v.kind in ("int", "real"):
                return v
            raise Unsupported("unary operator")
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
        if isinstance(v, ModelObj) and hasattr(v, "unop"):
            return v.unop(self, n.op)
        self.raise_(TypeError, "bad operand type for unary operator")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        return self.binop(n.op, a, self.eval(n.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if isinstance(a, ModelObj) and hasattr(a, "binop"):
            return a.binop(self, op, b, False)
        if isinstance(b, ModelObj) and hasattr(b, "binop"):
            return b.binop(self, op, a, True)
        from . import ops
        return ops.binop(self, op, a, b)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = []
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                if not res:
                    return v
                res.append(v)
                return conj([x if isinstance(x, (bool, Sym)) else self.truth(x) for x in res])
            if len(n.ops) > 1:
                if not self.decide(v):
                    return False
            left = right
        return v

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            for x, y in ((a, b),):
                if isinstance(x, Obj) and isinstance(x.cls, type):
                    m = self.class_lookup(x.cls, "__ne__")
                    if isinstance(m, types.FunctionType) or (isinstance(m, types.WrapperDescriptorType) and m.__objclass__ is dict):
                        return self.call(self.bind(m, x), [y])
            r = self.eq(a, b)
            return neg(r) if isinstance(r, (bool, Sym)) else (not self.decide(r))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return neg(r)
        from . import ops
        return ops.order(self, op, a, b)

    def e_Call(self, n, env):
        # super() and locals()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = env.cls
            if cls is None:
                e = env
                while e is not None and e.cls is None:
                    e = e.parent
                cls = e.cls if e else None
            if cls is None:
                raise Unsupported("super() outside class")
            f = env.fn
            first = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            return SuperVal(cls, env.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "eval", "exec", "vars") and n.func.id not in env.vars \
                and not (n.func.id == "vars" and n.args):
            if n.func.id == "globals":
                return GlobalsDict(env.globs)
            raise Unsupported(n.func.id)
        f = self.eval(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, Obj) and d.dictpart is not None:
                    d = d.dictpart
                if isinstance(d, ModelObj) and hasattr(d, "as_pairs"):
                    d = self.pdict(d.as_pairs(self))
                if not isinstance(d, PDict):
                    raise Unsupported("** of non-dict")
                for kk, vv in d.d.items():
                    if not isinstance(kk, str):
                        raise Unsupported("** with symbolic key")
                    if kk in kwargs:
                        self.raise_(TypeError, "multiple values for keyword argument")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        self.run.loc = (env.fn.qual if env.fn else "?", n.lineno)
        return self.call(f, args, kwargs)

    def e_JoinedStr(self, n, env):
        from . import strs
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    if isinstance(x, PRIMS):
                        spec = "".join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant)) if v.format_spec else ""
                        if v.conversion == 114:
                            x = repr(x)
                        parts.append(format(x, spec))
                    elif v.conversion == 114 or v.format_spec is not None:
                        parts.append(strs.opaque_str(self, "repr"))
                    else:
                        parts.append(self.to_str(x))
                else:
                    parts.append(self.to_str(x))
        return strs.concat(self, parts)

    def e_ListComp(self, n, env):
        r = self.plist()
        e2 = Env(env.globs, env, env.fn)
        e2.cls = env.cls
        h = self.comp_abstract(n, e2, "list")
        if h is not None:
            return h
        self.comp(n.generators, 0, e2, lambda e: self.list_append(r, self.eval(n.elt, e)))
        return r

    def list_append(self, l, x):
        self.note(("list", self.oid(l)), l)
        if getattr(l, "abs", None) is not None:
            l.abs.append(self, x)
        else:
            l.items.append(x)

    def e_SetComp(self, n, env):
        s = PSet()
        e2 = Env(env.globs, env, env.fn)
        def add(e):
            x = self.eval(n.elt, e)
            if not self.run.branch(self.truth(self.contains(s, x))):
                s.items.append(x)
        self.unaware += 1
        try:
            self.comp(n.generators, 0, e2, add)
        finally:
            self.unaware -= 1
        return s

    def e_DictComp(self, n, env):
        d = self.pdict()
        e2 = Env(env.globs, env, env.fn)
        self.comp(n.generators, 0, e2, lambda e: self.dict_set(d, self.eval(n.key, e), self.eval(n.value, e)))
        return d

    def e_GeneratorExp(self, n, env):
        e2 = Env(env.globs, env, env.fn)
        e2.cls = env.cls
        # the first iterable is evaluated eagerly
        return GenExp(n, env)

    def comp_abstract(self, n, env, kind):
        """comprehension over an abstract collection: the collection decides (None: iterate)"""
        if len(n.generators) != 1:
            return None
        it = n.generators[0].iter
        v = self.eval(it, env) if isinstance(it, (ast.Name, ast.Attribute)) else None
        if isinstance(v, ModelObj) and hasattr(v, "comp"):
            return v.comp(self, n, env, kind)
        return None

    def genexp_abstract(self, g):
        n, env = g.node, g.env
        if len(n.generators) != 1:
            return None
        v = self.eval(n.generators[0].iter, env)
        if isinstance(v, ModelObj) and hasattr(v, "comp"):
            return v.comp(self, n, env, "gen")
        # evaluated once: remember it so that iteration does not evaluate it again
        g.first = v
        return None

    def comp(self, gens, i, env, emit, first=None):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        it = first if first is not None else self.eval(g.iter, env)
        def cb(x):
            self.assign(g.target, x, env)
            for c in g.ifs:
                if not self.decide(self.eval(c, env)):
                    return
            self.comp(gens, i + 1, env, emit)
        self.iterate(it, cb)

    def e_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value is not None else None
        e = env
        while e is not None and e.yield_cb is None:
            e = e.parent
        if e is None:
            raise Unsupported("yield outside iteration")
        return e.yield_cb(v)

    def e_YieldFrom(self, n, env):
        e = env
        while e is not None and e.yield_cb is None:
            e = e.parent
        self.iterate(self.eval(n.value, env), e.yield_cb)

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")


class LocalClass(ModelObj):
    """class defined inside an interpreted function"""
    def __init__(self, cls, methods, bases):
        self.cls, self.methods, self.bases = cls, methods, bases

    def call(self, I, args, kwargs):
        o = LocalInst(self)
        if "__init__" in self.methods:
            I.call(self.methods["__init__"], [o] + list(args), kwargs)
        return o

    def getattr(self, I, name):
        if name in self.methods:
            return self.methods[name]
        raise_attr(I, self, name)


class LocalInst(ModelObj):
    def __init__(self, lc):
        self.lc, self.fields = lc, {}

    def getattr(self, I, name):
        if name in self.fields:
            return self.fields[name]
        m = self.lc.methods.get(name, MISSING)
        if m is MISSING:
            raise_attr(I, self, name)
        return Bound(m, self) if isinstance(m, Func) else m

    def setattr(self, I, name, v):
        self.fields[name] = v

    def call(self, I, args, kwargs):
        return I.call(self.lc.methods["__call__"], [self] + list(args), kwargs)


class GlobalsDict(ModelObj):
    def __init__(self, g):
        self.g = g

    def getitem(self, I, k):
        if isinstance(k, str):
            if k in self.g:
                return I.lift(self.g[k])
            I.raise_(KeyError, k)
        raise Unsupported("globals()[symbolic]")

    def contains(self, I, k):
        if isinstance(k, str):
            return k in self.g
        raise Unsupported("globals()[symbolic]")
