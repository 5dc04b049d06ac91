"""C14 Temporary settings are scoped."""
import warnings

from pyvc.harness import harness
from earthkit.regrid.utils import config as cm
from specs.configs import NAMES, bad_value, default_meaning, equal, fresh_config, install, some_value

PROPERTY = "C14"
LEVEL_NOTE = "sizes, percentages and durations are parsed by functions under contract in C15; here they are replaced by those contracts"
warnings.simplefilter("ignore")


class Rejected(Exception):
    pass


class Observer:
    """remembers what it saw; may reject what it sees at one of its notifications"""

    def __init__(self, c, rejects=0):
        self.c, self.rejects, self.seen = c, rejects, []

    def __call__(self):
        self.seen.append({o: self.c.get(o) for o in NAMES})
        if len(self.seen) == self.rejects:
            raise Rejected()


def begin(S, rejects=0):
    install(S)
    S.environ({})
    c, meaning = fresh_config(S, "/settings")
    S.patch(cm, "CONFIG", c)
    saves = []
    S.patch(cm, "save_config", lambda path, config: saves.append((path, dict(config))))
    first = Observer(c)
    second = Observer(c, rejects)
    c.on_change(first)
    c.on_change(second)
    return c, meaning, saves, first, second


def all_equal(S, c, meaning, label):
    for o in NAMES:
        S.check(label, equal(c.get(o), meaning[o]))


def saw(S, observer, n, c, label):
    """at least one more notification, and the last one shows the settings in force"""
    S.check(label + ": every observer is notified", len(observer.seen) > n)
    for o in NAMES:
        S.check(label + ": observers see the settings in force", equal(observer.seen[-1][o], c.get(o)))


@harness(timeout=150, split={"option": 12})
def one_block(S):
    """a block with one setting changed on entry, and anything done inside"""
    c, meaning, saves, first, second = begin(S)
    name = S.choice("option", *NAMES)
    v, want = some_value(S, "value", name)
    inside = dict(meaning)
    inside[name] = want
    leave = S.choice("leave", "end", "exception", "return")
    n1 = 0
    caught = False
    form = S.choice("form", "positional", "keyword", "later")

    def body():
        with (c.temporary(name, v) if form == "positional" else c.temporary(**{name.replace("-", "_"): v}) if form == "keyword" else c.temporary()):
            if form == "later":
                all_equal(S, c, meaning, "an empty block changes nothing")
                saw(S, first, 0, c, "entering")
                k = len(first.seen)
                c.set(name, v)
                saw(S, first, k, c, "setting inside")
            else:
                saw(S, first, 0, c, "entering")
                saw(S, second, 0, c, "entering")
            all_equal(S, c, inside, "the temporary value is visible inside")
            if leave == "exception":
                raise Rejected()
            if leave == "return":
                return 5
        return 6
    try:
        body()
    except Rejected:
        caught = True
    S.check("the exception of the block reaches the caller", caught == (leave == "exception"))
    all_equal(S, c, meaning, "after the block the values are as before")
    S.check("every observer is notified when the block is left", len(first.seen) >= (3 if form == "later" else 2) and len(second.seen) == len(first.seen))
    saw(S, first, 1, c, "leaving")
    saw(S, second, 1, c, "leaving")
    S.check("the saved configuration is not touched", len(saves) == 0)


@harness(timeout=150, split={"outer": 4, "then": 4})
def nested(S):
    """blocks in blocks"""
    c, meaning, saves, first, second = begin(S)
    a = S.choice("outer", "cache-policy", "user-cache-directory", "maximum-cache-size", "weights-memory-cache-policy")
    b = "user-cache-directory" if S.symbolic else S.choice("inner", *NAMES)
    va, wa = some_value(S, "va", a)
    vb, wb = some_value(S, "vb", b)
    fails = S.choice("inner block", "ends", "raises")
    m1 = dict(meaning)
    m1[a] = wa
    m2 = dict(m1)
    m2[b] = wb
    with c.temporary(a, va):
        all_equal(S, c, m1, "the temporary value is visible inside")
        n = len(first.seen)
        try:
            with c.temporary(b, vb):
                all_equal(S, c, m2, "the inner block sees both")
                saw(S, first, n, c, "entering the inner block")
                if fails == "raises":
                    raise Rejected()
                c.reset(a)
        except Rejected:
            pass
        all_equal(S, c, m1, "after the inner block the outer values are as before")
        saw(S, first, n + 1, c, "leaving the inner block")
        k = S.choice("then", "nothing", "set", "reset", "reset all")
        if k == "set":
            c.set(b, vb)
            all_equal(S, c, m2, "set inside a block")
        elif k == "reset":
            c.reset(b)
            m1[b] = default_meaning(S, b)
            all_equal(S, c, m1, "reset inside a block gives the default")
        elif k == "reset all":
            c.reset()
            all_equal(S, c, {o: default_meaning(S, o) for o in NAMES}, "reset inside a block gives the defaults")
    all_equal(S, c, meaning, "after the block the values are as before")
    saw(S, second, 3, c, "leaving")
    S.check("the saved configuration is not touched", len(saves) == 0)


@harness(timeout=150, split={"rejected at": 4})
def rejected(S):
    """an observer rejects the new settings at any of its notifications"""
    at = S.choice("rejected at", 1, 2, 3, 4)
    c, meaning, saves, first, second = begin(S, at)
    name = S.choice("option", "cache-policy", "maximum-cache-size", "user-cache-directory")
    v, want = some_value(S, "value", name)
    v2, want2 = some_value(S, "value2", "weights-memory-cache-policy")
    try:
        with c.temporary(name, v):
            c.set("weights-memory-cache-policy", v2)
            try:
                with c.temporary():
                    pass
            except Rejected:
                pass
            S.check("a rejected inner block leaves the outer values", S.all_of(equal(c.get(name), want), equal(c.get("weights-memory-cache-policy"), want2)))
    except Rejected:
        pass
    all_equal(S, c, meaning, "after a rejected block the values are as before")
    S.check("the saved configuration is not touched", len(saves) == 0)
    c.set(name, v)
    S.check("later changes apply to the settings again", equal(c.get(name), want))
    S.check("later changes are saved again", len(saves) >= 1)


@harness(timeout=150)
def refused_value(S):
    """a block that cannot be entered because of an ill-formed value changes nothing"""
    c, meaning, saves, first, second = begin(S)
    name = S.choice("option", "cache-policy", "maximum-cache-size", "url-download-timeout")
    v = bad_value(S, "bad", name)[0]
    entered = refused = False
    try:
        with c.temporary(name, v):
            entered = True
    except (ValueError, TypeError):
        refused = True
    S.check("an ill-formed value is refused", refused and not entered)
    all_equal(S, c, meaning, "a block that is not entered changes nothing")
    S.check("the saved configuration is not touched", len(saves) == 0)


@harness(timeout=150, split={"option": 5})
def late_observer(S):
    """an observer registered inside a block, at any depth, sees every later change, inside the block and after it"""
    c, meaning, saves, first, second = begin(S)
    name = S.choice("option", "cache-policy", "maximum-cache-size", "user-cache-directory", "weights-memory-cache-policy", "url-download-timeout")
    v, want = some_value(S, "value", name)
    v2, want2 = some_value(S, "value2", "temporary-directory-root")
    deep = S.choice("registered", "in the outer block", "in the inner block")
    late = Observer(c)
    with c.temporary():
        if deep == "in the outer block":
            c.on_change(late)
        with c.temporary("temporary-directory-root", v2):
            if deep == "in the inner block":
                c.on_change(late)
            else:
                saw(S, late, 0, c, "entering a block after registering")
            n = len(late.seen)
            c.set(name, v)
            saw(S, late, n, c, "a change in the block where the observer was registered")
            n = len(late.seen)
            c.reset(name)
            saw(S, late, n, c, "a reset in the block where the observer was registered")
            n = len(late.seen)
        saw(S, late, n, c, "leaving the inner block")
        n = len(late.seen)
        c.set(name, v)
        saw(S, late, n, c, "a change in the outer block")
        n = len(late.seen)
    saw(S, late, n, c, "leaving the outer block")
    n = len(late.seen)
    c.set(name, v)
    saw(S, late, n, c, "a change after the blocks")
    saw(S, first, 6, c, "the observers registered before")


@harness(timeout=150, split={"operation": 3})
def outside(S):
    """every change of the effective settings outside a block is followed by a notification"""
    c, meaning, saves, first, second = begin(S)
    op = S.choice("operation", "set", "reset", "reset all")
    name = S.choice("option", *NAMES)
    if op == "set":
        v, w = some_value(S, "value", name)
        c.set(name, v)
    elif op == "reset":
        c.reset(name)
    else:
        c.reset()
    saw(S, first, 0, c, op)
    saw(S, second, 0, c, op)


@harness(symbolic=False, samples=200, search_s=5)
def histories(S):
    """run time: random trees of blocks with sets, resets and rejections"""
    import os
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "config.yaml")
        c = cm.Config(path, dict(cm.DEFAULTS))
        S.environ({})
        S.patch(cm, "CONFIG", c)
        cm.save_config(path, c._config)
        content = open(path).read()
        o = Observer(c)
        c.on_change(o)
        r = Observer(c)
        reject = []

        def maybe():
            if reject and S.rng.random() < 0.15:
                raise Rejected()
        c.on_change(maybe)

        def state():
            return {x: c.get(x) for x in NAMES}

        def block(depth):
            for i in range(S.int("n", 1, 4)):
                k = S.choice("k", "set", "reset", "reset all", "block", "block")
                if k == "block" and depth < 4:
                    before = state()
                    x = S.choice("option", *NAMES)
                    v, w = some_value(S, "v", x)
                    n = len(o.seen)
                    entered = False
                    try:
                        with S.choice("form", lambda: c.temporary(x, v), lambda: c.temporary({x: v}), lambda: c.temporary(**{x.replace("-", "_"): v}))():
                            entered = True
                            S.check("the temporary value is visible inside", equal(c.get(x), w))
                            S.check("notified on entry", len(o.seen) > n and o.seen[-1] == state())
                            block(depth + 1)
                            if S.int("raise", 0, 4) == 0:
                                raise KeyError("mine")
                    except Rejected:
                        pass
                    except KeyError as e:
                        if e.args != ("mine",):
                            raise
                    S.check("values as before", state() == before)
                    S.check("notified on exit", o.seen[-1] == before)
                elif depth > 0:
                    n = len(o.seen)
                    try:
                        x = S.choice("option", *NAMES)
                        if k == "reset":
                            c.reset(x)
                        elif k == "reset all":
                            c.reset()
                        else:
                            c.set(x, some_value(S, "v", x)[0])
                    except Rejected:
                        pass
                    if k == "reset":
                        S.check("reset inside a block gives the default", equal(c.get(x), default_meaning(S, x)))
                    S.check("notified after a change", len(o.seen) > n and o.seen[-1] == state())
        if S.bool("rejections"):
            reject.append(1)
        block(0)
        S.check("the saved configuration is not touched", open(path).read() == content)
        S.check("no block is left over", len(c._stack) == 0)
