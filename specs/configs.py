"""Shared by C13, C14, C16: the documented settings and arbitrary configurations."""
from earthkit.regrid.utils import config as cm
from earthkit.regrid.utils.config import Config

# option -> how its values are interpreted, as documented
KINDS = {
    "user-cache-directory": "str",
    "temporary-cache-directory-root": "text or none",
    "temporary-directory-root": "text or none",
    "cache-policy": "disk policy",
    "maximum-cache-size": "bytes or none",
    "maximum-cache-disk-usage": "percent or none",
    "url-download-timeout": "seconds",
    "check-out-of-date-urls": "bool",
    "download-out-of-date-urls": "bool",
    "maximum-weights-memory-cache-size": "bytes or none",
    "weights-memory-cache-policy": "memory policy",
    "weights-memory-cache-strict-mode": "bool",
}
VALUES = {"disk policy": ("off", "temporary", "user"), "memory policy": ("off", "unlimited", "largest", "lru")}
NAMES = tuple(KINDS)
UNITS = {"bytes": ("", "K", "M", "g", "T", "kb"), "seconds": ("", "s", "m", "h", "d"), "percent": ("", "%")}
FACTOR = {"": 1, "K": 1024, "M": 1024**2, "g": 1024**3, "T": 1024**4, "kb": 1024, "s": 1, "m": 60, "h": 3600, "d": 86400, "%": 1}


def env_name(name):
    return "EARTHKIT_REGRID_" + name.upper().replace("-", "_")


class Refused(Exception):
    pass


def parser(S, kind):
    """contract of the size, percentage and duration parsers (C15): a function of the text, or refusal"""
    def parse(value, name=None, units=None, none_ok=False):
        if value is None and none_ok:
            return None
        if isinstance(value, int):
            return value
        if value is None or S.pure_bool("malformed " + kind, value):
            raise ValueError(kind)
        return S.pure_int(kind, value)
    return parse


def install(S):
    """the parsers are replaced by their contracts (symbolic side only)"""
    if S.symbolic:
        S.patch(cm, "as_bytes", parser(S, "bytes"))
        S.patch(cm, "as_percent", parser(S, "percent"))
        S.patch(cm, "as_seconds", parser(S, "seconds"))
        for kind, texts in (("bytes", ("5GB", "500MB", "7", "1")), ("percent", ("7", "1")), ("seconds", ("30s", "7", "1"))):
            for t in texts:
                S.suppose(not_(S, S.pure_bool("malformed " + kind, t)))


def text_or_empty(r):
    return r.choice(["aa", "bb", "c_d", "e1", ""])


def some_value(S, name, option):
    """-> (value, what it means); a value that is accepted"""
    kind = KINDS[option]
    if kind == "str":
        t = S.text(name, text_or_empty)
        return t, t
    if kind == "bool":
        b = S.bool(name)
        return b, b
    if kind in VALUES:
        v = S.choice(name + ".v", *VALUES[kind])
        return v, v
    base = kind.split()[0]
    if kind.endswith("none") and S.choice(name + ".none", False, True):
        return None, None
    if base == "text":
        t = S.text(name, text_or_empty)
        return t, t
    if S.choice(name + ".number", False, True):
        n = S.int(name + ".n", 0, 100)
        return n, n
    if S.symbolic:
        t = S.text(name)
        S.suppose(not_(S, S.pure_bool("malformed " + base, t)))
        return t, S.pure_int(base, t)
    n = S.int(name + ".n", 0, 100)
    u = S.choice(name + ".unit", *UNITS[base])
    return "%d%s" % (n, u), n * FACTOR[u]


def not_(S, c):
    return S.either(c == False)  # noqa: E712


def bad_value(S, name, option):
    """a value that is not accepted, or no such value"""
    kind = KINDS[option]
    if kind in VALUES:
        return (S.choice(name + ".bad", "offf", "", "LRU", "none"),)
    base = kind.split()[0]
    if base in ("bytes", "percent", "seconds"):
        if S.symbolic:
            t = S.text(name)
            S.suppose(S.pure_bool("malformed " + base, t))
            return (t,)
        return (S.choice(name + ".bad", "abc", "-1", "1.5", "3x", "", "1 2"),)
    return ()


def fresh_config(S, path=None, name="c"):
    """a configuration with any values; -> config, {option: meaning}"""
    raw, meaning = {}, {}
    for o in NAMES:
        raw[o] = None
    c = Config(path, dict(cm.DEFAULTS))
    for o in NAMES:
        kind = KINDS[o]
        if S.symbolic:
            if kind.split()[0] in ("str", "text") or kind in VALUES:
                raw[o] = S.text(name + "." + o)
                meaning[o] = raw[o]
            elif kind == "bool":
                raw[o] = S.bool(name + "." + o)
                meaning[o] = raw[o]
            else:
                raw[o] = S.text(name + "." + o)
                base = kind.split()[0]
                S.suppose(not_(S, S.pure_bool("malformed " + base, raw[o])))
                meaning[o] = S.pure_int(base, raw[o])
        else:
            raw[o], meaning[o] = some_value(S, name + "." + o, o)
    c._config = raw
    return c, meaning


def default_meaning(S, option):
    v = cm.DEFAULTS[option]
    base = KINDS[option].split()[0]
    if base in ("bytes", "percent", "seconds") and v is not None:
        if S.symbolic:
            return S.pure_int(base, v)
        return {"5GB": 5 * 1024**3, "500MB": 500 * 1024**2, "30s": 30}[v]
    return v


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b
