"""Ghost file system: the contracts of os / open / yaml / filelock used by the verified code.

A path maps to nothing, a directory or a file; a file holds a text (host or symbolic) or an opaque content.
After every operation that changes it the registered step hooks run: they are where a process may stop (crash points)
and where another process may act. Paths are compared as texts. Not modelled: permissions, full disks, links, encodings."""
import builtins, io, os, posixpath, shutil, tempfile
import time as _time
import gzip
import json
import yaml
import z3
from .core import *
from .core import V
from . import strs
from .models import B, builtin, host, NotHost, native, b_join, Context

ROOT = "/scratch"


class Node:
    __slots__ = ("kind", "text", "value", "size", "writing", "ident", "mtime")

    def __init__(self, kind, text="", value=None, size=None):
        self.kind, self.text, self.value, self.size = kind, text, value, size
        self.writing = 0
        self.mtime = None


class FS(ModelObj):
    def __init__(self):
        self.entries = []       # (path, node or None), newest first
        self.hooks = []
        self.befores = []
        self.trace = []
        self.faults = None      # handler(I, op, path) -> may raise

    def norm(self, I, p):
        if isinstance(p, Obj) or isinstance(p, ModelObj):
            p = I.call(I.getattr(p, "__fspath__"), [], {})
        if isinstance(p, str):
            return os.path.normpath(p) if p else p
        if isinstance(p, Sym) and p.kind == "str":
            return p
        if p is None or isinstance(p, (int, float)):
            I.raise_(TypeError, "expected str, bytes or os.PathLike object")
        raise Unsupported(f"path {p!r}")

    def find(self, I, p):
        p = self.norm(I, p)
        for q, n in self.entries:
            if isinstance(p, str) and isinstance(q, str):
                if p == q:
                    return n
            elif I.decide(I.eq(p, q)):
                return n
        return None

    def put(self, I, p, node):
        p = self.norm(I, p)
        # a decided equality with an existing entry replaces it
        for i, (q, n) in enumerate(self.entries):
            if (isinstance(p, str) and isinstance(q, str) and p == q) or (not (isinstance(p, str) and isinstance(q, str)) and I.decide(I.eq(p, q))):
                self.entries[i] = (q, node)
                return
        self.entries.insert(0, (p, node))

    def step(self, I, op, p):
        self.trace.append((op, p))
        if self.faults is not None:
            self.faults(I, op, p)
        hooks, self.hooks = self.hooks, []
        try:
            for h in hooks:
                h(I)
        finally:
            self.hooks = hooks

    def before(self, I):
        """another process may act before an operation"""
        hooks, self.befores = self.befores, []
        try:
            for h in hooks:
                h(I)
        finally:
            self.befores = hooks

    def need_parent(self, I, p):
        p = self.norm(I, p)
        if isinstance(p, str):
            d = os.path.dirname(p)
            if d and d != "/" and self.find(I, d) is None:
                I.raise_(FileNotFoundError, 2, "No such file or directory")
        # the directory part of a symbolic path is assumed to exist


def fs(I):
    f = I.run.ghost.get("fs")
    if f is None:
        raise Unsupported("file system access outside a harness with a file system")
    return f


def text_of(I, v):
    """bytes that are encoded text -> the text, or None"""
    if isinstance(v, bytes):
        try:
            return v.decode()
        except UnicodeDecodeError:
            return None
    if not isinstance(v, SymBytes):
        return v
    ts = [text_of(I, p) if isinstance(p, bytes) else p[1] if p[0] == "enc" else None for p in v.parts]
    return None if any(t is None for t in ts) else strs.concat(I, ts)


class FileObj(ModelObj):
    def __init__(self, f, path, node, mode, binary=False):
        self.f, self.path, self.node, self.mode, self.binary = f, path, node, mode, binary
        self.closed = False
        self.reader = None

    def enter(self, I):
        return self

    def exit(self, I, e):
        self.m_close(I)
        return False

    def m_close(self, I):
        if not self.closed:
            self.closed = True
            if self.mode != "r":
                self.node.writing -= 1
                self.f.step(I, "close", self.path)

    def m_flush(self, I):
        return None

    def m_write(self, I, s):
        if self.mode == "r":
            I.raise_(io.UnsupportedOperation, "not writable")
        if self.closed:
            I.raise_(ValueError, "I/O operation on closed file")
        if self.binary != isinstance(s, (bytes, SymBytes)) and not (self.binary and isinstance(s, ModelObj)):
            I.raise_(TypeError, "a bytes-like object is required, not 'str'" if self.binary else "write() argument must be str, not bytes")
        if isinstance(s, (bytes, SymBytes)):
            from . import bytesm
            t = self.node.text
            s = text_of(I, s) if text_of(I, s) is not None and not isinstance(t, (bytes, SymBytes)) else s
            if isinstance(s, (bytes, SymBytes)) and not isinstance(t, (bytes, SymBytes)):
                t = SymBytes([("enc", t)]) if not isinstance(t, str) else t.encode()
        if isinstance(s, (bytes, SymBytes)):
            self.node.text = bytesm.concat(t, s)
        else:
            self.node.text = strs.concat(I, [self.node.text, s])
        self.f.step(I, "write", self.path)
        return None

    def m_writelines(self, I, xs):
        for x in I.to_list(xs):
            self.m_write(I, x)

    def m_read(self, I, n=-1):
        if isinstance(self.node.text, (bytes, SymBytes)):
            from . import bytesm
            if self.reader is None:
                self.reader = bytesm.BytesIOModel(self.node.text)
            r = self.reader.m_read(I, n)
            if not self.binary:
                r = text_of(I, r)
                if r is None:
                    raise Unsupported("reading bytes as text")
            return r
        if n != -1 and n is not None:
            raise Unsupported("reading a part of a text")
        t = self.node.text
        if self.binary:
            return t.encode() if isinstance(t, str) else SymBytes([("enc", t)])
        return t

    def m_readlines(self, I):
        return I.plist(self.to_list(I))

    def m_fileno(self, I):
        return 3

    def to_list(self, I):
        if isinstance(self.node.text, str):
            return self.node.text.splitlines(True)
        raise Unsupported("lines of a symbolic file")

    def getattr(self, I, name):
        if name == "name":
            return self.path
        if name == "closed":
            return self.closed
        return super().getattr(I, name)


def do_open(I, a, k):
    f = fs(I)
    f.before(I)
    path = a[0]
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    n = f.find(I, path)
    if mode in ("r", "rt", "rb"):
        if n is None:
            I.raise_(FileNotFoundError, 2, "No such file or directory")
        if n.kind == "dir":
            I.raise_(IsADirectoryError, 21, "Is a directory")
        return FileObj(f, path, n, "r", "b" in mode)
    if mode in ("w", "wt", "wb", "x", "xb", "xt", "a", "at", "ab"):
        if n is not None and n.kind == "dir":
            I.raise_(IsADirectoryError, 21, "Is a directory")
        if mode.startswith("x") and n is not None:
            I.raise_(FileExistsError, 17, "File exists")
        if n is None:
            f.need_parent(I, path)
        if n is None or not mode.startswith("a"):
            if n is None:
                n = Node("file")
                f.put(I, path, n)
            else:
                n.text, n.value = "", None
        n.writing += 1
        f.step(I, "open", path)
        return FileObj(f, path, n, "w", "b" in mode)
    raise Unsupported(f"open mode {mode}")


Context.open = lambda self, I, a, k: do_open(I, a, k)


@builtin(print)
def b_print(I, a, k):
    f = k.get("file")
    if f is None or "fs" not in I.run.ghost or not isinstance(f, FileObj):
        return None
    out = []
    sep = k.get("sep", " ")
    for i, x in enumerate(a):
        if i:
            out.append(sep)
        out.append(I.to_str(x))
    out.append(k.get("end", "\n"))
    f.m_write(I, strs.concat(I, out))


def path_fn(f, acts=True):
    def wrap(g):
        def h(I, a, k):
            if acts:
                fs(I).before(I)
            return g(I, *a, **k)
        for x in (f if isinstance(f, tuple) else (f,)):
            B[x] = h
        return g
    return wrap


@path_fn((os.path.exists, os.path.lexists))
def p_exists(I, p):
    return fs(I).find(I, p) is not None


@path_fn(os.path.isdir)
def p_isdir(I, p):
    n = fs(I).find(I, p)
    return n is not None and n.kind == "dir"


@path_fn(os.path.isfile)
def p_isfile(I, p):
    n = fs(I).find(I, p)
    return n is not None and n.kind == "file"


@path_fn(os.path.islink)
def p_islink(I, p):
    return False


@path_fn(os.path.getsize)
def p_getsize(I, p):
    n = fs(I).find(I, p)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    if n.size is None and isinstance(n.text, str) and n.kind == "file":
        return len(n.text.encode())
    if n.size is None:
        n.size = Sym("int", I.run.fresh(z3.IntSort(), "filesize"))
        I.run.assume(n.size.t >= 0)
    return n.size


class StatModel(ModelObj):
    pytypes = (os.stat_result,)

    def __init__(self, node, size):
        self.node, self.size = node, size

    def f_st_size(self, I):
        return self.size

    def f_st_mtime(self, I):
        if self.node.mtime is None:
            self.node.mtime = Sym("real", I.run.fresh(z3.RealSort(), "mtime"))
            c = I.run.ghost.get("clock")
            if c is not None:       # written during this run
                I.run.assume(z3.And(self.node.mtime.t >= 0, self.node.mtime.t <= c))
        return self.node.mtime


@path_fn((os.stat, os.lstat))
def p_stat(I, p):
    n = fs(I).find(I, p)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    return StatModel(n, p_getsize(I, p))


@path_fn(os.path.getmtime)
def p_getmtime(I, p):
    return p_stat(I, p).f_st_mtime(I)


class StatVfs(ModelObj):
    """any file system: its numbers are what they are"""
    def __init__(self, I):
        self.v = {}
        for n in ("f_bfree", "f_blocks", "f_bavail", "f_frsize"):
            t = I.run.fresh(z3.IntSort(), n)
            I.run.assume(t >= (0 if n in ("f_bfree", "f_bavail") else 1))
            self.v[n] = t
        I.run.assume(z3.And(self.v["f_bavail"] <= self.v["f_bfree"], self.v["f_bfree"] <= self.v["f_blocks"]))

    def getattr(self, I, name):
        if name in self.v:
            return Sym("int", self.v[name])
        raise Unsupported(name)


@path_fn(os.statvfs)
def p_statvfs(I, p):
    if fs(I).find(I, p) is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    return StatVfs(I)


@path_fn(os.walk)
def p_walk(I, p, topdown=True, **k):
    f = fs(I)
    p = f.norm(I, p)
    if not isinstance(p, str) or any(not isinstance(q, str) for q, n in f.entries if n is not None):
        raise Unsupported("walk with symbolic paths")
    out = []

    def go(d):
        names = sorted(os.path.basename(q) for q, n in f.entries if n is not None and os.path.dirname(q) == d and q != d)
        ds = [x for x in names if f.find(I, d + "/" + x).kind == "dir"]
        out.append((d, I.plist(ds), I.plist([x for x in names if x not in ds])))
        for x in ds:
            go(d + "/" + x)
    n = f.find(I, p)
    if n is not None and n.kind == "dir":
        go(p)
    return I.plist(out)


@path_fn((os.rename, os.replace))
def p_rename(I, a, b):
    f = fs(I)
    n = f.find(I, a)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    f.need_parent(I, b)
    m = f.find(I, b)
    if m is not None and m.kind == "dir":
        raise Unsupported("rename onto a directory")
    f.put(I, b, n)
    f.put(I, a, None)
    f.step(I, "rename", b)


import shutil as _shutil


@path_fn((_shutil.move,))
def p_move(I, a, b):
    # may copy: the destination is not complete until the end
    f = fs(I)
    n = f.find(I, a)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    f.put(I, b, n)
    f.put(I, a, None)
    f.step(I, "rename", b)
    return b


@path_fn((_shutil.copy, _shutil.copyfile, _shutil.copy2))
def p_copy(I, a, b, **k):
    f = fs(I)
    n = f.find(I, a)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    m = f.find(I, b)
    if m is not None and m.kind == "dir":
        b = b_join(I, [b, os.path.basename(a)], {})
    new = Node("file")
    new.writing = 1
    f.put(I, b, new)
    f.step(I, "open", b)
    new.text, new.value, new.size = n.text, n.value, n.size
    new.writing = 0
    f.step(I, "close", b)
    return b


@path_fn((os.unlink, os.remove))
def p_unlink(I, p):
    f = fs(I)
    n = f.find(I, p)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    if n.kind == "dir":
        I.raise_(IsADirectoryError, 21, "Is a directory")
    f.put(I, p, None)
    f.step(I, "unlink", p)


@path_fn(_shutil.rmtree)
def p_rmtree(I, p, **k):
    f = fs(I)
    n = f.find(I, p)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    if n.kind != "dir":
        I.raise_(NotADirectoryError, 20, "Not a directory")
    f.put(I, p, None)
    q = f.norm(I, p)
    for x, _ in list(f.entries):
        if isinstance(x, str) and isinstance(q, str):
            if x.startswith(q + "/"):
                f.put(I, x, None)
    f.step(I, "rmtree", p)


def fresh_dir(I, d):
    """a directory that was not there before"""
    d = "/tmp" if d is None else d
    n = fs(I).find(I, d)
    if d != "/tmp" and (n is None or n.kind != "dir"):
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    k = I.run.ghost["fresh_dirs"] = I.run.ghost.get("fresh_dirs", 0) + 1
    p = strs.concat(I, [d, f"/tmp-fresh.{k}"])
    fs(I).put(I, p, Node("dir"))
    return p


@builtin(tempfile.mkdtemp)
def b_mkdtemp(I, a, k):
    return fresh_dir(I, k.get("dir", a[2] if len(a) > 2 else None))


@builtin(tempfile.TemporaryDirectory.__init__)
def b_tempdir(I, a, k):
    self, a = a[0], a[1:]
    I.setattr(self, "name", fresh_dir(I, k.get("dir", a[2] if len(a) > 2 else None)))


@builtin(tempfile.TemporaryDirectory.cleanup)
def b_tempdir_cleanup(I, a, k):
    I.call(I.lift(_shutil.rmtree), [I.getattr(a[0], "name")])


@path_fn((os.makedirs, os.mkdir))
def p_makedirs(I, p, mode=0o777, exist_ok=False):
    f = fs(I)
    n = f.find(I, p)
    if n is not None:
        if exist_ok and n.kind == "dir":
            return None
        I.raise_(FileExistsError, 17, "File exists")
    q = f.norm(I, p)
    while isinstance(q, str) and q not in ("/", "") and f.find(I, q) is None:
        f.put(I, q, Node("dir"))
        q = os.path.dirname(q)
    while not isinstance(q, str):
        f.put(I, q, Node("dir"))
        try:
            q = path_part(I, os.path.dirname, q)
        except Unsupported:
            break
        if f.find(I, q) is not None:
            break
    while isinstance(q, str) and q not in ("/", "") and f.find(I, q) is None:
        f.put(I, q, Node("dir"))
        q = os.path.dirname(q)
    f.step(I, "makedirs", p)


@path_fn(os.umask, acts=False)
def p_umask(I, m):
    return 0o022


@path_fn(os.fsync, acts=False)
def p_fsync(I, fd):
    return None


for _f in (os.path.dirname, os.path.basename, os.path.splitext, os.path.normpath, os.path.split, os.path.isabs):
    def _w(I, a, k, f=_f):
        if all(isinstance(x, str) for x in a):
            return I.lift(f(*a))
        return path_part(I, f, a[0])
    B[_f] = _w


def path_part(I, f, p):
    """name and directory of 'dir/name' when the last separator is literal and what follows holds none"""
    ps = strs.parts_of(I, p)
    for i in range(len(ps) - 1, -1, -1):
        x = ps[i]
        if isinstance(x, str):
            if "/" in x:
                j = x.rindex("/")
                head, tail = strs.make(ps[:i] + [x[:j]]), strs.make([x[j + 1:]] + ps[i + 1:])
                if f is os.path.dirname:
                    return head
                if f is os.path.basename:
                    return tail
                if f is os.path.split:
                    return (head, tail)
                break
        elif x[0] == "int" or strs.is_plain(I, x):
            continue
        elif x[0] == "v" and I.run.ghost.get("plain_names"):
            continue        # atomic texts of this harness hold no separator
        else:
            break
    if f is os.path.splitext and len(ps) > 1 and isinstance(ps[-1], str) and ps[-1].count(".") == 1 and ps[-1][0] == "." \
            and "/" not in ps[-1] and strs.is_plain(I, ps[-2]):
        return (strs.make(ps[:-1]), ps[-1])
    if f is os.path.normpath:
        return normal(I, p, False)
    if f is os.path.isabs and ps and isinstance(ps[0], str):
        return ps[0].startswith("/")
    raise Unsupported(f"{f.__name__} of a symbolic path")


@path_fn(os.path.expanduser, acts=False)
def p_expanduser(I, p):
    if isinstance(p, str):
        return os.path.expanduser(p)
    ps = strs.parts_of(I, p)
    if ps and isinstance(ps[0], str):
        if not ps[0].startswith("~"):
            return p
    if I.decide(strs.startswith(I, p, "~")):
        return strs.opaque_str(I, "expanded")
    return p


@path_fn((os.path.abspath, os.path.realpath), acts=False)
def p_abspath(I, p):
    if isinstance(p, str):
        return os.path.normpath(p) if p.startswith("/") else os.path.normpath(posixpath.join(ROOT, p))
    return normal(I, p, True)


def normal(I, p, absolute):
    """posixpath.normpath component by component; what is symbolic in a component is a name or a number"""
    comps = [[]]
    for x in strs.parts_of(I, p):
        if isinstance(x, str):
            first, *more = x.split("/")
            if first:
                comps[-1].append(first)
            for y in more:
                comps.append([y] if y else [])
        elif x[0] == "int" or strs.is_plain(I, x) or x[0] == "v" and I.run.ghost.get("plain_names"):
            comps[-1].append(x)
        else:
            raise Unsupported("normal form of a symbolic path")
    out = []
    rooted = not comps[0]
    if not rooted and absolute:
        out = [[c] for c in ROOT.split("/")[1:]]
        rooted = True
    for c in comps:
        if not c or c == ["."]:
            continue
        if c == [".."]:
            if out and out[-1] != [".."]:
                out.pop()
            elif not rooted:
                out.append(c)
            continue
        out.append(c)
    r = []
    for k, c in enumerate(out):
        r += (["/"] if k or rooted else []) + c
    return strs.make(r) if r else "/" if rooted else "."


@path_fn(os.listdir)
def p_listdir(I, p="."):
    f = fs(I)
    p = f.norm(I, p)
    n = f.find(I, p)
    if n is None:
        I.raise_(FileNotFoundError, 2, "No such file or directory")
    r = []
    for q, n in f.entries:
        if n is None:
            continue
        if isinstance(q, str) and isinstance(p, str):
            if os.path.dirname(q) == p:
                r.append(os.path.basename(q))
        else:
            raise Unsupported("listing with symbolic paths")
    return I.plist(r)


# --------------------------------------------------------------------------------------------- yaml
# assumed contract of PyYAML: load(dump(x)) == x for mappings of plain values; the text of a mapping is a sequence of
# whole lines; later keys win; comments and blank lines are ignored
def texts(I):
    return I.run.ghost.setdefault("texts", [])


def register(I, kind, obj):
    t = I.run.fresh(V, kind)
    texts(I).append((t, kind, obj))
    return Sym("str", None, (("v", t),))


def registered(I, part):
    for t, kind, obj in texts(I):
        if part[0] == "v" and part[1].eq(t):
            return kind, obj
    return None


def yaml_text(I, obj):
    try:
        return yaml.dump(host(I, obj), default_flow_style=False)
    except NotHost:
        return register(I, "yaml", I.copy_value(obj) if hasattr(I, "copy_value") else I.pdict([(k.v if isinstance(k, SymKey) else k, x) for k, x in obj.d.items()]))


@builtin(yaml.dump, yaml.safe_dump)
def b_yaml_dump(I, a, k):
    stream = a[1] if len(a) > 1 else k.get("stream")
    obj = a[0]
    try:
        kw = {n: host(I, x) for n, x in k.items() if n not in ("stream", "Dumper")}
        t = yaml.dump(host(I, obj), **kw)
    except NotHost:
        if k.get("default_flow_style"):
            raise Unsupported("flow style")
        if not isinstance(obj, PDict):
            raise Unsupported("yaml of a symbolic non-mapping")
        t = register(I, "yaml", I.pdict([(k.v if isinstance(k, SymKey) else k, x) for k, x in obj.d.items()]))
    if stream is None:
        return t
    I.call(I.getattr(stream, "write"), [t], {})
    return None


@builtin(yaml.load, yaml.safe_load, yaml.full_load)
def b_yaml_load(I, a, k):
    s = a[0]
    text = text_of(I, I.call(I.getattr(s, "read"), [], {}) if isinstance(s, FileObj) else s)
    if isinstance(text, str):
        return I.lift(native(I, yaml.safe_load, [text], {}))
    parts = strs.parts_of(I, text)
    if len(parts) == 1:
        r = registered(I, parts[0])
        if r is not None and r[0] == "yamlbad":
            I.raise_(yaml.YAMLError, "malformed")
        if r is not None and r[0] == "yamlvalue":
            return r[1]
    out = I.pdict([])
    buf = ""

    def segment(b):
        try:
            v = yaml.safe_load(b)
        except yaml.YAMLError:
            raise Unsupported("mixed yaml text")
        if v is None:
            return
        if not isinstance(v, dict):
            raise Unsupported("mixed yaml text")
        for kk, vv in v.items():
            I.dict_set(out, kk, I.lift(vv))

    for p in parts:
        if isinstance(p, str):
            buf += p
            continue
        r = registered(I, p)
        if r is None or r[0] != "yaml":
            raise Unsupported("yaml of symbolic text")
        if buf and not buf.endswith("\n"):
            raise Unsupported("mixed yaml line")
        segment(buf)
        buf = ""
        for kk, vv in r[1].d.items():
            I.dict_set(out, kk, vv)
    segment(buf)
    return out


# --------------------------------------------------------------------------------------------- json
# assumed contract of the json module: loads(dumps(x)) == x for plain values; anything else raises ValueError
def load_json(I, text):
    text = text_of(I, text)
    if text is None:
        raise Unsupported("json.loads of bytes")
    if isinstance(text, str):
        return I.lift(native(I, json.loads, [text], {}))
    parts = strs.parts_of(I, text)
    r = registered(I, parts[0]) if len(parts) == 1 else None
    if r is not None and r[0] == "json":
        return snapshot(I, r[1])
    if r is not None and r[0] == "jsonbad":
        I.raise_(json.JSONDecodeError, "malformed", "", 0)
    h = I.ctx.options.get("json.loads")
    if h is not None:
        return h(I, text)
    raise Unsupported("json.loads of symbolic text")


@builtin(json.loads)
def b_json_loads(I, a, k):
    return load_json(I, a[0])


@builtin(json.load)
def b_json_load(I, a, k):
    return load_json(I, I.call(I.getattr(a[0], "read"), [], {}))


def snapshot(I, v):
    """what is written down is what is there now"""
    from . import seqm
    if isinstance(v, Obj) and v.dictpart is not None:
        v = v.dictpart
    if isinstance(v, seqm.AbsPDict):
        d = I.pdict([])
        seqm.AbsDict.copy_into(I, v, d)
        d.abs.later = [[k, snapshot(I, x)] for k, x in d.abs.later]
        return d
    if isinstance(v, PDict):
        return I.pdict([(k.v if isinstance(k, SymKey) else k, snapshot(I, x)) for k, x in v.d.items()])
    if isinstance(v, PList):
        return I.plist([snapshot(I, x) for x in v.items])
    if isinstance(v, tuple):
        return I.plist([snapshot(I, x) for x in v])
    if v is None or isinstance(v, (bool, int, float, str, Sym)):
        return v
    if isinstance(v, ModelObj) and hasattr(v, "m_tolist"):
        I.raise_(TypeError, "not JSON serializable")
    raise Unsupported(f"json of {type(v).__name__}")


@builtin(json.dump)
def b_json_dump(I, a, k):
    if "default" in k or "cls" in k or k.get("sort_keys"):
        raise Unsupported("json.dump with options")
    try:
        t = json.dumps(host(I, a[0]), **{n: host(I, x) for n, x in k.items() if n != "fp"})
    except NotHost:
        t = register(I, "json", snapshot(I, a[0]))
    except TypeError as e:
        I.raise_(TypeError, str(e))
    I.call(I.getattr(a[1] if len(a) > 1 else k["fp"], "write"), [t], {})


# --------------------------------------------------------------------------------------------- gzip
# assumed contract: unpacking what was packed gives it back; anything else raises OSError
@builtin(gzip.open)
def b_gzip_open(I, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "rb")
    if mode not in ("r", "rb", "rt"):
        raise Unsupported("writing gzip")
    raw = do_open(I, [a[0], "rb"], {})
    text = raw.node.text
    raw.m_close(I)
    parts = strs.parts_of(I, text) if not isinstance(text, (bytes, SymBytes)) else []
    r = registered(I, parts[0]) if len(parts) == 1 and not isinstance(parts[0], str) else None
    if r is None or r[0] != "gzip":
        if isinstance(text, str) or r is not None:
            I.raise_(gzip.BadGzipFile, "not gzipped")
        raise Unsupported("unpacking unknown bytes")
    n = Node("file", r[1])
    return FileObj(fs(I), a[0], n, "r", mode != "rt")


# --------------------------------------------------------------------------------------------- locks
class FileLockModel(ModelObj):
    """contract of filelock.FileLock: exclusive among all processes while held; another process may have acted before
    the lock is obtained (hook 'acquired')"""
    def __init__(self, I, path):
        self.path, self.held = path, 0

    def enter(self, I):
        self.m_acquire(I)
        return self

    def exit(self, I, e):
        self.m_release(I)
        return False

    def m_acquire(self, I, *a, **k):
        f = fs(I)
        f.before(I)
        g = I.run.ghost.setdefault("filelocks", [])
        for p, owner in g:
            if owner is not self and I.decide(I.eq(p, self.path)):
                I.run.check("no operation blocks itself (file lock is not acquired twice)", False)
        f.put(I, self.path, Node("file"))
        if not self.held:
            g.append((self.path, self))
        self.held += 1
        for h in I.run.ghost.get("on_filelock", []):
            h(I, self.path)
        f.step(I, "lock", self.path)
        return self

    def m_release(self, I, *a, **k):
        if self.held:
            self.held -= 1
            if not self.held:
                g = I.run.ghost["filelocks"]
                g[:] = [x for x in g if x[1] is not self]
                fs(I).step(I, "unlock", self.path)


try:
    import filelock
    for _c in {filelock.FileLock, filelock.UnixFileLock, filelock.SoftFileLock}:
        B[_c] = lambda I, a, k: FileLockModel(I, a[0])
except ImportError:     # pragma: no cover
    pass


# --------------------------------------------------------------------------------------------- harness side
def install(SymS, NatS):
    def m_scratch(self, I, *more):
        """an empty directory; -> its path"""
        f = FS()
        I.run.ghost["fs"] = f
        f.entries.append((ROOT, Node("dir")))
        return ROOT

    def m_write(self, I, path, text):
        f = fs(I)
        n = Node("file", text)
        f.put(I, path, n)

    def m_sized(self, I, path, size):
        """a complete file of that many bytes"""
        n = Node("file", strs.opaque_str(I, "content"), size=size)
        fs(I).put(I, path, n)

    def m_old(self, I, path):
        """the file was last written long ago"""
        fs(I).find(I, path).mtime = -1000.0

    def m_mkdir(self, I, path):
        fs(I).put(I, path, Node("dir"))

    def m_exists(self, I, path):
        return fs(I).find(I, path) is not None

    def m_content(self, I, path):
        n = fs(I).find(I, path)
        return None if n is None else n.text

    def m_complete(self, I, path):
        """nobody is writing to the file"""
        n = fs(I).find(I, path)
        return n is None or n.writing == 0

    def m_yaml_text(self, I, obj):
        """a text that loads as obj"""
        return yaml_text(I, obj)

    def m_bad_yaml(self, I, name):
        """any text that is not YAML"""
        return register(I, "yamlbad", None)

    def m_json_text(self, I, obj):
        """a text that loads as obj"""
        return register(I, "json", snapshot(I, obj))

    def m_gzip(self, I, text):
        """content of a file that unpacks to text"""
        return register(I, "gzip", text)

    def m_clock_increases(self, I):
        """assumption: every reading of the clock is later than the one before"""
        I.run.ghost["clock"] = z3.RealVal(0)

    def m_bad_json(self, I, name):
        """any text that is not JSON"""
        return register(I, "jsonbad", None)

    def m_every_step(self, I, fn):
        """fn() holds/acts after every change of the file system"""
        fs(I).hooks.append(lambda I2: I2.call(fn, [], {}))

    def m_on_filelock(self, I, fn):
        I.run.ghost.setdefault("on_filelock", []).append(lambda I2, p: I2.call(fn, [p], {}))

    def m_before_ops(self, I, fn):
        """fn() acts before every operation on the file system (another process)"""
        fs(I).befores.append(lambda I2: I2.call(fn, [], {}))

    def m_tree(self, I):
        """(path, text, complete) of every file"""
        return tuple((p, n.text, n.writing == 0) for p, n in fs(I).entries if n is not None and n.kind == "file")

    def m_remove(self, I, path):
        fs(I).put(I, path, None)

    def m_lock_held(self, I, path):
        for p, o in I.run.ghost.get("filelocks", []):
            if I.decide(I.eq(p, path)):
                return True
        return False

    for f in (m_before_ops, m_tree, m_remove, m_lock_held, m_scratch, m_write, m_sized, m_old, m_mkdir, m_exists, m_content, m_complete, m_yaml_text, m_bad_yaml, m_json_text, m_bad_json, m_clock_increases, m_gzip, m_every_step, m_on_filelock):
        setattr(SymS, f.__name__, f)

    def scratch(self):
        d = self._scratch = os.path.realpath(tempfile.mkdtemp(prefix="h-"))
        self.undo.append(("call", lambda: shutil.rmtree(d, ignore_errors=True)))
        return d

    def write(self, path, text):
        with builtins.open(path, "wb" if isinstance(text, bytes) else "w") as f:
            f.write(text)

    def content(self, path):
        try:
            with builtins.open(path) as f:
                return f.read()
        except FileNotFoundError:
            return None

    def sized(self, path, n):
        with builtins.open(path, "wb") as f:
            f.truncate(n)

    def old(self, path):
        t = _time.time() - 1000
        os.utime(path, (t, t))
    NatS.sized = sized
    NatS.old = old
    NatS.scratch = scratch
    NatS.write = write
    NatS.mkdir = lambda self, p: os.makedirs(p, exist_ok=True)
    NatS.exists = lambda self, p: os.path.exists(p)
    NatS.content = content
    NatS.complete = lambda self, p: True
    NatS.yaml_text = lambda self, obj: yaml.dump(obj, default_flow_style=False)
    NatS.bad_yaml = lambda self, name: self._get(name, lambda: self.rng.choice(
        ["a: b: c", "{", "[1, 2", "- a\nb", "\t- x", "key: 'unclosed", "%", "a: &x\n *y", "!!python/object:os.system {}", "\x00"]))

    NatS.clock_increases = lambda self: None
    NatS.gzip = lambda self, text: gzip.compress(text.encode())
    NatS.json_text = lambda self, obj: json.dumps(obj)
    NatS.bad_json = lambda self, name: self._get(name, lambda: self.rng.choice(["", "{", "[1, 2", "nothing", '{"version": 1, "matrix": {"a": {', "\x00"]))

    def hook_ops(self):
        """wrap the operations of os once per harness run"""
        if getattr(self, "_hooked", None) is not None:
            return self._hooked
        import threading
        me = threading.get_ident()
        H = self._hooked = {"before": [], "after": [], "lock": [], "busy": False}

        def run(kind, *a):
            if H["busy"] or threading.get_ident() != me:
                return
            H["busy"] = True
            try:
                for h in H[kind]:
                    h(*a)
            finally:
                H["busy"] = False

        def wrap(mod, name, changes):
            live = getattr(mod, name)

            def w(*a, **k):
                run("before")
                if name.startswith("copy") and H["after"] and not H["busy"] and len(a) == 2 and os.path.isfile(a[0]) and not os.path.isdir(a[1]):
                    # a copy is not atomic: the target is there with a part of its contents first
                    with builtins.open(a[0], "rb") as f, builtins.open(a[1], "wb") as g:
                        b = f.read()
                        g.write(b[:len(b) // 2])
                    run("after")
                try:
                    return live(*a, **k)
                finally:
                    if changes:
                        run("after")
            setattr(mod, name, w)
            self.undo.append(("call", lambda: setattr(mod, name, live)))
        for n in ("rename", "replace", "unlink", "remove", "makedirs"):
            wrap(os, n, True)
        for n in ("exists", "isfile", "isdir"):
            wrap(os.path, n, False)
        for n in ("move", "copyfile", "copy", "copy2", "rmtree"):
            wrap(shutil, n, True)
        try:
            import filelock
            B_ = filelock.BaseFileLock
            acq, rel = B_.acquire, B_.release
            held = self._held = []

            def acquire(self_, *a, **k):
                run("before")
                if threading.get_ident() == me and any(os.path.abspath(self_.lock_file) == p for p in held):
                    raise RuntimeError("file lock acquired twice by the same thread: blocks itself")
                r = acq(self_, *a, **k)
                if threading.get_ident() == me:
                    held.append(os.path.abspath(self_.lock_file))
                    run("lock", self_.lock_file)
                return r

            def release(self_, *a, **k):
                rel(self_, *a, **k)
                if threading.get_ident() == me and os.path.abspath(self_.lock_file) in held and not self_.is_locked:
                    held.remove(os.path.abspath(self_.lock_file))
            B_.acquire, B_.release = acquire, release
            self.undo.append(("call", lambda: (setattr(B_, "acquire", acq), setattr(B_, "release", rel))))
        except ImportError:
            pass
        return H

    def tree(self):
        r = []
        for root, _, files in os.walk(self._scratch):
            for f in files:
                p = os.path.join(root, f)
                try:
                    with builtins.open(p) as h:
                        r.append((p, h.read(), True))
                except (OSError, UnicodeDecodeError):
                    pass
        return tuple(sorted(r))

    def remove(self, p):
        try:
            os.unlink(p)
        except FileNotFoundError:
            pass
    NatS.every_step = lambda self, fn: hook_ops(self)["after"].append(fn)
    NatS.before_ops = lambda self, fn: hook_ops(self)["before"].append(fn)
    NatS.on_filelock = lambda self, fn: hook_ops(self)["lock"].append(fn)
    NatS.lock_held = lambda self, p: any(os.path.abspath(p) == x for x in getattr(self, "_held", []))
    NatS.tree = tree
    NatS.remove = remove
