"""C11 Disk cache path identity and containment."""
import os

from pyvc.harness import harness
from earthkit.regrid.utils import caching
from specs.diskcache import Quiet, Settings, manager, rows, world

PROPERTY = "C11"
LEVEL_NOTE = ("owners and extensions are arbitrary plain names (plus fixed extensions), arguments arbitrary values in a fixed set of JSON shapes; "
              "paths outside and inside the directory are of the listed forms with arbitrary names; sqlite3 and the file system by contract")
ASSUMPTIONS = ["SHA-256 does not collide", "json.dumps is injective up to the order of keys", "no symbolic links lead out of the cache directory"]


def create(target, args):
    with open(target, "w") as f:
        f.write("made")


def names(r):
    return r.choice(["aa", "AA", "bb", "b_1", "E1"])


def part(S, which, kind):
    """one of the things a request is made of"""
    if which == "owner":
        return S.plain("owner", names)
    if which == "extension":
        return {"none": "", "dot": "." + S.plain("extension"), "two": ".tar.gz"}[kind]
    if which == "extra":
        return {"none": None, "text": S.text("extra"), "number": S.int("extra number"), "list": [S.text("extra"), 1]}[kind]
    x, y = S.text("argument"), S.int("argument number")
    return {"list": [x, y], "shorter": [x], "dict": {"url": x, "n": y}, "nested": {"url": [x, None], "n": {"k": y, "m": True}}}[kind]


KINDS = {"owner": ("name",), "extension": ("none", "dot", "two"), "extra": ("none", "text", "number", "list"), "args": ("list", "shorter", "dict", "nested")}


def turned(x):
    """the same value with its dictionaries filled in another order"""
    if isinstance(x, dict):
        return {k: turned(x[k]) for k in reversed(list(x))}
    if isinstance(x, list):
        return [turned(y) for y in x]
    return x


def ask(r):
    return caching.cache_file(r["owner"], create, r["args"], hash_extra=r["extra"], extension=r["extension"])


@harness(timeout=150, split={"differs": 5})
def paths(S):
    """two requests have the same path exactly when owner, arguments, extra hash and extension are equal"""
    which = S.choice("differs", "nothing", "owner", "args", "extra", "extension")
    d = S.scratch()
    world(S, S.choice("policy", "user", "temporary"), d)
    a = {w: part(S, w, S.choice(w, *KINDS[w])) for w in KINDS}
    b = {w: turned(a[w]) for w in a}
    if which != "nothing":
        b[which] = part(S, which, S.choice("other", *KINDS[which]))
    p = ask(a)
    q = ask(b)
    same = which == "nothing" or a[which] == b[which]
    S.check("equal requests have the same path, different requests different ones", (p == q) == same)
    S.check("the path is directly in the cache directory", os.path.dirname(p) == caching.CACHE.directory())
    S.check("a later request has the same path", ask(a) == p)


@harness(timeout=150)
def several(S):
    """requests that differ in several respects"""
    d = S.scratch()
    world(S, "user", d)
    a = {w: part(S, w, KINDS[w][0]) for w in KINDS}
    b = {w: part(S, w, KINDS[w][0]) for w in KINDS}
    a["extra"], b["extra"] = S.text("extra"), S.text("extra")
    a["extension"], b["extension"] = "." + S.plain("extension"), "." + S.plain("extension")
    p = ask(a)
    q = ask(b)
    same = a["owner"] == b["owner"] and a["args"] == b["args"] and a["extra"] == b["extra"] and a["extension"] == b["extension"]
    S.check("equal requests have the same path, different requests different ones", (p == q) == same)


def foreign(S, d, kind):
    """something that is not inside the directory d"""
    top = os.path.dirname(d)
    return {
        "sibling": lambda: d + "x" + S.plain("name"),
        "sibling's file": lambda: d + "-old/" + S.plain("name"),
        "above": lambda: top + "/" + S.plain("name"),
        "above, by ..": lambda: d + "/../" + S.plain("name"),
        "above, by .. twice": lambda: d + "/" + S.plain("step") + "/../../" + S.plain("name"),
        "next to it, by ..": lambda: d + "/../cache-old/" + S.plain("name"),
        "elsewhere": lambda: top + "/other/" + S.plain("name"),
        "the directory": lambda: d,
        "the directory, with a slash": lambda: d + "/",
        "the directory, by ..": lambda: d + "/sub/..",
        "the one above": lambda: d + "/..",
    }[kind]()


OUTSIDE = ("sibling", "sibling's file", "above", "above, by ..", "above, by .. twice", "next to it, by ..", "elsewhere",
           "the directory", "the directory, with a slash", "the directory, by ..", "the one above")
INSIDE = ("a name", "below", "by ..", "by ., twice /")


def own(S, d, kind):
    name = S.plain("name")
    return {"a name": d + "/" + name, "below": d + "/sub/" + name, "by ..": d + "/sub/../" + name, "by ., twice /": d + "/.//" + name}[kind]


def attempt(f, *args):
    try:
        f(*args)
        return True
    except Exception:
        return False


@harness(timeout=150, split={"path": len(OUTSIDE)})
def foreign_paths(S):
    """nothing outside the cache directory is registered, completed or deleted, whether it exists or not"""
    kind = S.choice("path", *OUTSIDE)
    top = S.scratch()
    d = top + "/cache"
    S.mkdir(d)
    S.mkdir(d + "/sub")
    m = manager(S, d, 1000)
    kept = d + "/kept.bin"
    m._register_cache_file(kept, "tester", {})
    S.write(kept, "kept")
    m._update_entry(kept)
    p = foreign(S, d, kind)
    if kind in OUTSIDE[:7] and S.choice("there", "yes", "no") == "yes":
        S.mkdir(os.path.dirname(p))
        S.write(p, "not the cache's")
    before, files = rows(m), S.tree()
    op = S.choice("operation", "register", "complete", "remove", "remove entry", "remove file")
    if op == "register":
        done = attempt(m._register_cache_file, p, "tester", {})
    elif op == "complete":
        done = attempt(m._update_entry, p, {"n": 1})
    elif op == "remove":
        done = attempt(m._decache_file, p)
    elif op == "remove entry":
        done = attempt(m._delete_entry, {"path": p, "size": 3, "owner": "tester", "args": None})
    else:
        done = attempt(m._delete_file, p)
    S.check("no file or directory is touched", S.tree() == files)
    S.check("the register is as before", rows(m) == before)
    S.check("registering or completing it is refused", not done or op not in ("register", "complete"))


@harness(timeout=150)
def own_paths(S):
    """everything inside the cache directory is accepted"""
    d = S.scratch() + "/cache"
    S.mkdir(d)
    S.mkdir(d + "/sub")
    m = manager(S, d, 1000)
    p = own(S, d, S.choice("path", *INSIDE))
    m._register_cache_file(p, "tester", {"n": 1})
    S.check("it is registered", list(rows(m)) == [p])
    S.write(p, "made")
    m._update_entry(p, {"made": 1})
    S.check("it is completed", rows(m)[p]["size"] == 4)
    m._decache_file(p)
    S.check("it is removed", not S.exists(p) and rows(m) == {})


@harness(symbolic=False, samples=10)
def linked(S):
    """a cache directory may be reached through a symbolic link"""
    top = S.scratch()
    S.mkdir(top + "/real")
    S.mkdir(top + "/real/cache")
    above = S.choice("link", "to the directory", "above it") == "above it"
    if above:
        os.symlink(top + "/real", top + "/link")
        d = top + "/link/cache"
    else:
        os.symlink(top + "/real/cache", top + "/link")
        d = top + "/link"
    m = manager(S, d, 1000)
    p = d + "/" + S.plain("name")
    m._register_cache_file(p, "tester", {})
    S.write(p, "made")
    m._update_entry(p)
    S.check("it is completed", rows(m)[p]["size"] == 4)
    m._decache_file(p)
    S.check("it is removed", not S.exists(p) and rows(m) == {})


@harness(timeout=150)
def registers(S):
    """each directory has its own register, used whenever the cache is in that directory"""
    top = S.scratch()
    first, second = top + "/first", top + "/second"
    S.mkdir(first)
    S.mkdir(second)
    m = manager(S, first)
    p, q = first + "/" + S.plain("name"), second + "/" + S.plain("name")
    m._register_cache_file(p, "tester", {})
    if S.choice("completed", True, False):
        S.write(p, "made")
        m._update_entry(p)
    before = rows(m)
    old = m.connection
    S.patch(caching, "CONFIG", Settings({"cache-policy": "user", "user-cache-directory": second}))
    m._config_changed(caching.UserCachePolicy())
    S.check("a new directory has an empty register", rows(m) == {})
    m._register_cache_file(q, "tester", {})
    S.check("its files are registered there", list(rows(m)) == [q])
    newer = m.connection
    S.patch(caching, "CONFIG", Settings({"cache-policy": "user", "user-cache-directory": first}))
    m._config_changed(caching.UserCachePolicy())
    S.check("the register of a directory is found again", rows(m) == before)
    if not S.symbolic:
        old.close()
        newer.close()


KEYS = {"user": "user-cache-directory", "temporary": "temporary-cache-directory-root", "off": "temporary-directory-root"}


@harness(timeout=150)
def directories(S):
    """files go to the directory the configuration names, now and after it has changed"""
    top = S.scratch()
    name = S.choice("policy", *KEYS)
    values = {k: top + "/" + k for k in KEYS.values()}
    values["cache-policy"] = name
    home = S.choice("named", "absolutely", "from home") == "from home"
    S.patch(os.path, "expanduser", lambda p: top + p[1:] if p == "~" or p.startswith("~/") else p)

    def configured(d):
        return ("~" if home else top) + d
    target = "/" + S.plain("directory")
    values[KEYS[name]] = configured(target)
    values["maximum-cache-size"] = None
    S.patch(caching, "CONFIG", Settings(values))
    S.patch(caching.Cache, "_created", False)
    S.patch(caching, "CacheManager", Quiet)
    c = caching.Cache()

    def judge(label, target):
        d = c.directory()
        if name == "user":
            S.check("the user's directory is used" + label, d == top + target)
        else:
            S.check("a new directory under the one configured is used" + label, os.path.dirname(d) == top + target)
        S.check("the directory exists" + label, os.path.isdir(d))
        if name == "off":
            S.check("no register is kept" + label, c._manager is None)
        else:
            S.check("the register follows" + label, c._manager.told[-1].directory() == d)
        return d

    d = judge("", target)
    S.check("the directory stays", c.directory() == d)
    what = S.choice("change", "directory", "other directories", "limit")
    if what == "directory":
        target = "/new/" + S.plain("new directory")
        values[KEYS[name]] = configured(target)
    elif what == "limit":
        values["maximum-cache-size"] = S.int("limit", 0)
    else:
        for k in KEYS.values():
            if k != KEYS[name]:
                values[k] = top + "/other-" + k
    c._config_changed()
    e = judge(" after a change", target)
    if what != "directory":
        S.check("the same directory is kept when another setting changes", e == d)
