"""C16 Saved settings reload to the same values."""
import os
import warnings

from pyvc.harness import harness
from earthkit.regrid.utils import config as cm
from earthkit.regrid.utils.config import Config, ConfigOption
from specs.configs import KINDS, NAMES, default_meaning, equal, fresh_config, install, some_value, text_or_empty

PROPERTY = "C16"
LEVEL_NOTE = ("PyYAML is assumed to load what it dumped for mappings of plain values (checked at run time with awkward texts); "
              "sizes, percentages and durations are parsed by functions under contract in C15")
ASSUMPTIONS = ["values are plain (text, numbers, truth values, None), as the settings' parsers expect",
               "no other process writes the same settings file at the same time"]
warnings.simplefilter("ignore")
AWKWARD = ["", " ", "yes", "null", "~", "1e3", "0x10", "007", "1:30", "a: b", "# x", "'", '"', "- a", "\u00e9t\u00e9", "a\nb", "a\\nb", "\ttab", "{", "[1]", "*x", "&y",
           "!z", "%", "@", "`", "x" * 200, " lead", "trail ", "2020-01-01", "1_000", "12:30:45", ".5", "-1", "True", "C:\\dir", "\u4e2d", "a#b", "a #b", "=", "<<", "?"]


def awkward(r):
    return r.choice(AWKWARD) if r.random() < 0.8 else "".join(r.choice("ab:#'\"\\ \n-{}[]&*!%@`~0\u00e9") for _ in range(r.randint(1, 12)))


def any_value(S, name, option):
    kind = KINDS[option].split()[0]
    if not S.symbolic and kind in ("str", "text") and S.int(name + ".awkward", 0, 2) > 0:
        t = S.text(name, awkward)
        return t, t
    return some_value(S, name, option)


def all_equal(S, c, meaning, label):
    for o in NAMES:
        S.check(label, equal(c.get(o), meaning[o]))


class Text:
    """what is written to it"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text = self.text + s


def option_contract(S, option, name, value, f):
    """ConfigOption.save adds text from which the setting is read back (proved in one_option)"""
    f.write("# " + name + "\n")
    f.write(S.yaml_text({name: value}))


def with_contract(S):
    if S.symbolic:
        S.use_contract(ConfigOption.save, option_contract)


@harness(timeout=150)
def one_option(S):
    """the text written for one setting gives it back, and nothing else; a value that is the default may be left out"""
    install(S)
    d = S.scratch()
    path = d + "/file"
    S.write(path, "")
    name = S.choice("option", *NAMES)
    which = S.choice("value is", "any", "the default")
    value = some_value(S, "value", name)[0] if which == "any" else cm.DEFAULTS[name]
    with open(path, "w") as f:
        cm.CONFIG_AND_HELP[name].save(name, value, f)
    with open(path) as f:
        s = cm.yaml.load(f, Loader=cm.yaml.SafeLoader)
    if s is None:
        s = {}
    S.check("the text of a setting is a mapping", isinstance(s, dict))
    S.check("reading gives the value back", equal(s.get(name, cm.DEFAULTS[name]), value))
    S.check("nothing but the setting is read back", len(s) == (1 if name in s else 0))


@harness(timeout=150)
def round_trip(S):
    """all settings, any values"""
    install(S)
    with_contract(S)
    S.environ({})
    d = S.scratch()
    c, meaning = fresh_config(S)
    path = d + "/config.yaml"
    older = S.choice("file", "absent", "old settings", "rubbish")
    if older == "old settings":
        S.write(path, "user-cache-directory: old\nnot-a-setting: 5\nversion: 0.0.1\n")
    elif older == "rubbish":
        S.write(path, "{{")
    if S.choice("with", "save_as", "save") == "save_as":
        c.save_as(path)
    else:
        c._config_yaml = path
        c._save()
    loaded, outdated = cm._init_config(path)
    c2 = Config(path, loaded)
    all_equal(S, c2, meaning, "loading gives back every setting")
    S.check("no lock is left behind", not S.exists(path + ".lock"))
    all_equal(S, c, meaning, "saving changes nothing")


class Rejected(Exception):
    pass


@harness(timeout=150, split={"autosave": 2, "observer": 3})
def autosave(S):
    """every change outside a block reaches the file, unless auto-saving is off"""
    install(S)
    with_contract(S)
    S.environ({})
    d = S.scratch()
    path = d + "/config.yaml"
    c, meaning = fresh_config(S, path)
    S.patch(cm, "CONFIG", c)
    on = S.choice("autosave", True, False)
    S.patch(Config, "_auto_save_config", True)
    c.autosave = on
    S.check("auto-saving is as it was set", c.autosave is on and cm.CONFIG.autosave is on)
    rejecting = S.choice("observer", "none", "content with it", "rejecting")

    def observer():
        if rejecting == "rejecting":
            raise Rejected()

    if rejecting != "none":
        c.on_change(observer)
    S.write(path, "before: 1\n")
    op = S.choice("operation", "set", "keyword", "dict", "reset", "reset all")
    name = S.choice("option", *NAMES)
    v, want = some_value(S, "value", name)
    rejected = False
    try:
        if op == "set":
            c.set(name, v)
        elif op == "keyword":
            c.set(**{name.replace("-", "_"): v})
        elif op == "dict":
            c.set({name: v})
        elif op == "reset":
            c.reset(name)
        else:
            c.reset()
    except Rejected:
        rejected = True
    S.check("a rejection reaches the caller", rejected == (rejecting == "rejecting"))
    if op == "reset":
        meaning[name] = default_meaning(S, name)
    elif op == "reset all":
        meaning = {o: default_meaning(S, o) for o in NAMES}
    else:
        meaning[name] = want
    if on:
        c2 = Config(path, cm._init_config(path)[0])
        all_equal(S, c2, meaning, "the file holds the settings after the change")
    else:
        S.check("nothing is saved when auto-saving is off", S.content(path) == "before: 1\n")
    all_equal(S, c, meaning, "the change is in force")


@harness(timeout=150)
def bad_files(S):
    """missing, malformed and non-mapping files give the defaults"""
    install(S)
    S.environ({})
    d = S.scratch()
    path = d + "/config.yaml"
    kind = S.choice("file", "missing", "no directory", "directory", "malformed", "empty", "comment", "text", "number", "list", "pairs", "null", "none")
    if kind == "malformed":
        S.write(path, S.bad_yaml("text"))
    elif kind == "no directory":
        path = d + "/x/config.yaml"
    elif kind == "directory":
        S.mkdir(path)
    elif kind == "none":
        path = None
    elif kind != "missing":
        S.write(path, {"empty": "", "comment": "# only\n\n", "text": "user-cache-directory\n", "number": "12\n", "list": "- cache-policy\n- user\n", "pairs": "- [maximum-cache-size, 7]\n- [cache-policy, 'off']\n", "null": "null\n"}[kind])
    config, outdated = cm._init_config(path)
    c = Config(path, config)
    all_equal(S, c, {o: default_meaning(S, o) for o in NAMES}, "defaults are used")


@harness(timeout=150, split={"extra": 4})
def partial_files(S):
    """a file with some settings: these are used, the others have their defaults; unknown names do no harm"""
    install(S)
    S.environ({})
    d = S.scratch()
    path = d + "/config.yaml"
    a = S.choice("first", *NAMES)
    v, want = any_value(S, "v", a)
    m = {a: v}
    extra = S.choice("extra", "nothing", "unknown", "version", "old version")
    meaning = {o: default_meaning(S, o) for o in NAMES}
    meaning[a] = want
    b = S.choice("second", "none", "cache-policy", "maximum-cache-size", "user-cache-directory")
    if b != "none" and b != a:
        v2, want2 = any_value(S, "v2", b)
        m[b] = v2
        meaning[b] = want2
    if extra == "unknown":
        m["some-other-setting"] = 5
    elif extra == "version":
        m["version"] = cm.VERSION
    elif extra == "old version":
        m["version"] = "0.0.1"
    S.write(path, S.yaml_text(m))
    c = Config(path, cm._init_config(path)[0])
    all_equal(S, c, meaning, "settings in the file are used, the others have their defaults")


@harness(timeout=150)
def settings_file(S):
    """the settings file at start-up: named by the environment or not, existing or not"""
    install(S)
    with_contract(S)
    d = S.scratch()
    where = S.choice("where", "environment", "home", "environment empty")
    path = d + "/deep/er/config.yaml"
    S.patch(cm, "OLD_CONFIG_FILE", d + "/old/settings.yaml")
    S.patch(cm, "CONFIG_DIR", d + "/deep/er")
    if where == "environment":
        path = d + "/other/my.yaml"
        S.environ({"EARTHKIT_REGRID_CONFIG_FILE": path})
    elif where == "environment empty":
        S.environ({"EARTHKIT_REGRID_CONFIG_FILE": ""})
    else:
        S.environ({})
    state = S.choice("state", "nothing", "directory", "file", "old settings", "bad old settings")
    meaning = {o: default_meaning(S, o) for o in NAMES}
    text = "cache-policy: 'off'\n"
    if state in ("directory", "file"):
        S.mkdir(os.path.dirname(path))
    if state == "file":
        S.write(path, text)
        meaning["cache-policy"] = "off"
    if state == "old settings":
        S.mkdir(d + "/old")
        S.write(d + "/old/settings.yaml", "cache-policy: temporary\nmaximum-cache-size: 7\nversion: 0.1\n")
        meaning["cache-policy"] = "temporary"
        meaning["maximum-cache-size"] = S.pure_int("bytes", 7) if S.symbolic else 7
    if state == "bad old settings":
        S.mkdir(d + "/old")
        S.write(d + "/old/settings.yaml", S.choice("bad", "{{", "- a\n", ""))
    got = cm._init_config_file()
    S.check("the settings file is the documented one", got == path)
    S.check("the settings file exists", S.exists(path))
    if state == "file":
        S.check("an existing settings file is not rewritten", S.content(path) == text)
    S.environ({})
    c = Config(got, cm._init_config(got)[0])
    for o in NAMES:
        if state == "old settings" and o == "maximum-cache-size":
            S.check("old settings are taken over", c.get(o) == 7)
        else:
            S.check("settings at start-up", equal(c.get(o), meaning[o]))


@harness(symbolic=False, samples=300, search_s=6)
def real_files(S):
    """run time: awkward values through real files, after any history of changes"""
    S.environ({})
    d = S.scratch()
    path = d + "/config.yaml"
    c = Config(path, dict(cm.DEFAULTS))
    S.patch(cm, "CONFIG", c)
    S.patch(Config, "_auto_save_config", True)
    meaning = {o: default_meaning(S, o) for o in NAMES}
    for i in range(S.int("n", 1, 14)):
        k = S.choice("k", "set", "set", "set", "keyword", "reset", "reset all", "block")
        o = S.choice("option", *NAMES)
        v, want = any_value(S, "v", o)
        if k == "set":
            c.set(o, v)
        elif k == "keyword":
            c.set(**{o.replace("-", "_"): v})
        elif k == "reset":
            c.reset(o)
            want = default_meaning(S, o)
        elif k == "block":
            with c.temporary(o, v):
                c.set(o, v)
            continue
        else:
            c.reset()
            meaning = {x: default_meaning(S, x) for x in NAMES}
            want = meaning[o]
        meaning[o] = want
        c2 = Config(path, cm._init_config(path)[0])
        all_equal(S, c2, meaning, "the file holds the settings after the change")
    other = d + "/copy.yaml"
    c.save_as(other)
    c3 = Config(other, cm._init_config(other)[0])
    all_equal(S, c3, meaning, "loading gives back every setting")
