"""C15 Sizes, percentages and durations are parsed exactly."""
import re

from pyvc.harness import harness
from earthkit.regrid.utils.config import CONFIG_AND_HELP, Config
from earthkit.regrid.utils.humanize import as_bytes, as_percent, as_seconds

PROPERTY = "C15"
KB = 1024
BYTES = {"K": KB, "M": KB**2, "G": KB**3, "T": KB**4, "P": KB**5, "k": KB, "m": KB**2, "g": KB**3, "t": KB**4, "p": KB**5}
SECONDS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
PERCENT = {"%": 1}
# number, optional unit starting with a word character or %, blanks around
GRAMMAR = re.compile(r"^\s*\d+\s*([%\w]+)?\s*$")
BLANKS = ("", " ", "  ", "\t", "\n")


def refuses(fn, *args, **kwargs):
    try:
        fn(*args, **kwargs)
    except ValueError:
        return True
    return False


def num(r):
    return r.choice([0, 1, 2, 5, 1023, 1024, 1025, 2048, 10**12, 500, 999, r.randrange(10**6), 2**53 + 1, r.randrange(10**6, 10**25), 2**31, 2**63 - 1])


def word(r):
    return r.choice(["", "B", "iB", "ytes", "0", "_", "K", "%", "ec", "ours", "9x"])


def check_units(S, parse, table, known):
    """'n', 'n<unit>' with any text after the unit's first character and any blanks"""
    n = S.int("n", 0, None, gen=num)
    if S.choice("plain", "no", "int", "text") != "no":
        v = n if S.choice("as", 0, 1) == 0 else S.choice("lead", *BLANKS) + str(n) + S.choice("trail", *BLANKS)
        S.check("a plain number means itself", parse(v) == n)
        return
    letters = list(table)
    u = S.choice("unit", *letters)
    rest = S.str("rest", gen=word, lang=r"[%\w]*")
    v = S.choice("lead", *BLANKS[:3]) + str(n) + S.choice("mid", "", " ", "\t") + u + rest + S.choice("trail", "", " ", "\n")
    S.check("number times unit", parse(v) == n * table[u])
    S.check("None declared or not, the same", parse(v, none_ok=True) == n * table[u])


@harness
def byte_sizes(S):
    check_units(S, as_bytes, BYTES, "KMGTPkmgtp")


@harness
def durations(S):
    check_units(S, as_seconds, SECONDS, "smhdw")


@harness
def percentages(S):
    check_units(S, as_percent, PERCENT, "%")


def bad(r):
    return r.choice(["", " ", "-1", "-5G", "1.5", "1.5G", "G", "5-G", "5 G B", "1e3", "+3", "5G!", "five", "5\nG\nB", "--", "0x10 z", "1,000", "-0", "5 .", "3.0s"])


@harness
def ill_formed(S):
    """text that is not a number with an optional unit"""
    t = S.str("text", gen=bad)
    S.assume(GRAMMAR.match(t) is None)
    parse = S.choice("parser", as_bytes, as_seconds, as_percent)
    S.check("ill-formed text is refused", refuses(parse, t))
    S.check("ill-formed text is refused when None is allowed", refuses(parse, t, none_ok=True))


@harness
def unknown_units(S):
    n = S.int("n", 0, None, gen=num)
    which = S.choice("parser", 0, 1, 2)
    parse = (as_bytes, as_seconds, as_percent)[which]
    known = ("KMGTPkmgtp", "smhdw", "%")[which]
    first = S.choice("first", *"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_%")
    S.assume(first not in known)
    u = first + S.str("rest", gen=word, lang=r"[%\w]*")
    S.check("unknown units are refused", refuses(parse, str(n) + S.choice("mid", "", " ") + u))


@harness
def other_values(S):
    parse = S.choice("parser", as_bytes, as_seconds, as_percent)
    S.check("None is accepted where declared", parse(None, none_ok=True) is None)
    S.check("None is refused otherwise", refuses(parse, None) and refuses(parse, None, "name") and refuses(parse, None, none_ok=False))
    n = S.int("n", 1, None, gen=lambda r: num(r) + 1)
    S.check("negative numbers are refused", refuses(parse, -n) and refuses(parse, "-" + str(n)))
    S.check("fractions are refused", refuses(parse, str(n) + "." + str(S.int("frac", 0, 10**6, gen=num))) and refuses(parse, 1.5))
    S.check("truth values are refused", refuses(parse, True) and refuses(parse, [1]))


@harness
def settings(S):
    """the settings that are sizes, percentages or durations are read with these parsers"""
    c = Config(None, {"maximum-cache-size": None, "maximum-cache-disk-usage": None, "url-download-timeout": "30s",
                      "maximum-weights-memory-cache-size": None})
    S.environ([])
    name = S.choice("setting", "maximum-cache-size", "maximum-cache-disk-usage", "url-download-timeout", "maximum-weights-memory-cache-size")
    table = {"maximum-cache-size": BYTES, "maximum-weights-memory-cache-size": BYTES, "url-download-timeout": SECONDS,
             "maximum-cache-disk-usage": PERCENT}[name]
    n = S.int("n", 0, None, gen=num)
    letters = [""] + list(table)
    u = S.choice("u", *range(11))
    S.assume(u < len(letters))
    v = str(n) + letters[u]
    want = n if u == 0 else n * table[letters[u]]
    c.set(name, v)
    S.check("setting means number times unit", c.get(name) == want)
    S.environ([("EARTHKIT_REGRID_" + name.upper().replace("-", "_"), v)])
    S.check("environment value means number times unit", Config(None, {name: None}).get(name) == want)
    S.environ([])
    if name == "url-download-timeout":
        S.check("None is refused where not declared", refuses(c.set, name, None) and c.get(name) == want)
    else:
        c.set(name, None)
        S.check("None is accepted where declared", c.get(name) is None)


@harness(symbolic=False)
def documented_defaults(S):
    """run-time: the default settings"""
    c = Config(None, dict((k, o.default) for k, o in CONFIG_AND_HELP.items()))
    S.environ([])
    S.check("default sizes", c.get("maximum-cache-size") == 5 * KB**3 and c.get("maximum-weights-memory-cache-size") == 500 * KB**2)
    S.check("default timeout", c.get("url-download-timeout") == 30)
