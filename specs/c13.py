"""C13 Setting lookup precedence and validation."""
import warnings

from pyvc.harness import harness
from earthkit.regrid.utils import config as cm
from earthkit.regrid.utils.config import Config
from specs.configs import KINDS, NAMES, bad_value, default_meaning, env_name, equal, fresh_config, install, some_value

PROPERTY = "C13"
LEVEL_NOTE = "sizes, percentages and durations are parsed by functions under contract in C15; here they are replaced by those contracts"
warnings.simplefilter("ignore")


def others(S, c, meaning, name, label):
    for o in NAMES:
        if o != name:
            S.check(label, equal(c.get(o), meaning[o]))


@harness(timeout=150)
def precedence(S):
    """environment, then the value set or loaded, then the default"""
    install(S)
    name = S.choice("option", *NAMES)
    c, meaning = fresh_config(S)
    missing = S.choice("in config", True, False) is False
    if missing:
        del c._config[name]
    given = S.choice("environment", False, True)
    if given:
        if KINDS[name].split()[0] in ("bool", "str", "text"):
            v = want = S.text("env") if S.choice("empty", False, True) is False else ""
        else:
            v, want = some_value(S, "env", name)
            if not isinstance(v, str):
                v = "7"
                want = (S.pure_int(KINDS[name].split()[0], "7") if S.symbolic else 7) if KINDS[name].split()[0] in ("bytes", "percent", "seconds") else "7"
        S.environ({env_name(name): v, "EARTHKIT_REGRID_OTHER": "1"})
        S.check("the environment variable wins", equal(c.get(name), want))
        S.check("the environment variable wins over the caller's default", equal(c.get(name, None), want))
    else:
        S.environ({})
        if missing:
            d, want = some_value(S, "default", name)
            S.check("the caller's default is used when there is no value", equal(c.get(name, d), want))
        else:
            S.check("the value set or loaded is used", equal(c.get(name), meaning[name]))
            S.check("the value set or loaded wins over the caller's default", equal(c.get(name, "1"), meaning[name]))
    others(S, c, meaning, name, "other settings are not affected by the environment variable")


@harness(timeout=150)
def malformed_environment(S):
    """an ill-formed environment variable is not replaced by something else"""
    install(S)
    name = S.choice("option", "maximum-cache-size", "maximum-cache-disk-usage", "url-download-timeout", "maximum-weights-memory-cache-size")
    c, meaning = fresh_config(S)
    v = bad_value(S, "bad", name)[0]
    S.environ({env_name(name): v})
    refused = False
    try:
        c.get(name)
    except ValueError:
        refused = True
    S.check("an ill-formed environment variable is refused", refused)


@harness(timeout=150)
def unknown_names(S):
    install(S)
    c, meaning = fresh_config(S)
    S.environ({})
    name = S.str("name", gen=lambda r: r.choice(["", "x", "cache_policy", "Cache-policy", "version", "user-cache-directory "]))
    S.assume(S.all_of(*[name != n for n in NAMES]))
    S.assume(S.all_of(*[name != n for n in cm.CONFIG_AND_HELP]))
    op = S.choice("operation", "get", "get with default", "set", "set dict", "reset")
    failed = False
    try:
        if op == "get":
            c.get(name)
        elif op == "get with default":
            c.get(name, 5)
        elif op == "set":
            c.set(name, 1)
        elif op == "set dict":
            c.set({name: 1})
        else:
            c.reset(name)
    except KeyError:
        failed = True
    S.check("an unknown name raises KeyError", failed)
    for o in NAMES:
        S.check("nothing is changed by an unknown name", equal(c.get(o), meaning[o]))


@harness(timeout=150, split={"form": 3})
def setting(S):
    """a valid value is in force after setting it, in any of the ways to set"""
    install(S)
    form = S.choice("form", "positional", "dict", "keyword")
    name = S.choice("option", *NAMES)
    c, meaning = fresh_config(S)
    S.environ({})
    v, want = some_value(S, "value", name)
    if form == "positional":
        c.set(name, v)
    elif form == "dict":
        c.set({name: v})
    else:
        c.set(**{name.replace("-", "_"): v})
    S.check("the value set is in force", equal(c.get(name), want))
    others(S, c, meaning, name, "setting one setting leaves the others unchanged")


@harness(timeout=150, split={"form": 3})
def refusal(S):
    """an ill-formed value is refused and the previous value stays in force"""
    install(S)
    form = S.choice("form", "positional", "dict", "keyword")
    name = S.choice("option", *[n for n in NAMES if KINDS[n] not in ("str", "bool", "text or none")])
    c, meaning = fresh_config(S)
    S.environ({})
    v = bad_value(S, "bad", name)[0]
    refused = False
    try:
        if form == "positional":
            c.set(name, v)
        elif form == "dict":
            c.set({name: v})
        else:
            c.set(**{name.replace("-", "_"): v})
    except (ValueError, TypeError):
        refused = True
    S.check("an ill-formed value is refused", refused)
    S.check("a refused value leaves the previous one in force", equal(c.get(name), meaning[name]))
    others(S, c, meaning, name, "a refused value leaves the others unchanged")


@harness(timeout=150)
def none_values(S):
    """None is accepted only where declared"""
    install(S)
    name = S.choice("option", *[n for n in NAMES if KINDS[n] not in ("str", "bool")])
    c, meaning = fresh_config(S)
    S.environ({})
    ok = KINDS[name].endswith("none")
    refused = False
    try:
        c.set(name, None)
    except (ValueError, TypeError):
        refused = True
    S.check("None is accepted only where declared", refused == (not ok))
    S.check("None, if accepted, is in force, else the previous value", equal(c.get(name), None if ok else meaning[name]))


@harness(timeout=150)
def resetting(S):
    install(S)
    c, meaning = fresh_config(S)
    S.environ({})
    name = S.choice("option", None, *NAMES)
    c.reset(name) if name is not None else c.reset()
    for o in NAMES:
        if name is None or o == name:
            S.check("reset restores the default", equal(c.get(o), default_meaning(S, o)))
        else:
            S.check("resetting one setting leaves the others unchanged", equal(c.get(o), meaning[o]))


@harness(timeout=30)
def reset_then_set(S):
    """the defaults themselves are never modified"""
    install(S)
    c, meaning = fresh_config(S)
    S.environ({})
    c.reset()
    name = S.choice("option", *NAMES)
    v, want = some_value(S, "value", name)
    c.set(name, v)
    d = Config(None, dict(cm.DEFAULTS))
    for o in NAMES:
        S.check("defaults are not modified by setting", equal(d.get(o), default_meaning(S, o)))
    c.reset(name)
    S.check("reset after set restores the default", equal(c.get(name), default_meaning(S, name)))


@harness(symbolic=False, samples=200, search_s=4)
def histories(S):
    """run time: random sets, resets, environment changes against a reference"""
    c = Config(None, dict(cm.DEFAULTS))
    now = {o: default_meaning(S, o) for o in NAMES}
    env = {}
    S.environ({})
    for step in range(S.int("steps", 1, 12)):
        k = S.choice("step", "set", "bad", "reset", "reset all", "env", "unenv", "several")
        o = S.choice("option", *NAMES)
        if k == "set":
            v, w = some_value(S, "v", o)
            c.set(o, v)
            now[o] = w
        elif k == "several":
            d = {}
            for i in range(S.int("n", 1, 4)):
                o2 = S.choice("option", *NAMES)
                d[o2], now[o2] = some_value(S, "v", o2)
            c.set(d)
        elif k == "bad":
            b = bad_value(S, "b", o)
            if b:
                try:
                    c.set(o, b[0])
                    S.check("an ill-formed value is refused", False)
                except (ValueError, TypeError):
                    pass
        elif k == "reset":
            c.reset(o)
            now[o] = default_meaning(S, o)
        elif k == "reset all":
            c.reset()
            now = {o: default_meaning(S, o) for o in NAMES}
        elif k == "env":
            v, w = some_value(S, "e", o)
            if isinstance(v, str):
                env[o] = (v, w)
        else:
            env.pop(o, None)
        S.environ({env_name(x): v for x, (v, w) in env.items()})
        for x in NAMES:
            S.check("every setting reads as expected", equal(c.get(x), env[x][1] if x in env else now[x]))
