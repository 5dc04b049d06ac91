"""C10 Disk cache files are published atomically."""
import os

from pyvc.harness import harness
from earthkit.regrid.utils import caching
from specs.diskcache import world

PROPERTY = "C10"
LEVEL_NOTE = "file operations follow the ghost file system's contracts (rename is atomic, a closed file is complete); the manager's operations are used by contract here and verified in C11 and C12"
ASSUMPTIONS = ["FileLock is exclusive among processes as long as nobody removes a lock file held by another",
               "power failures (loss of data already written) are not considered: a crash is the end of the process between two operations",
               "the creator writes only to the path it is given"]
POLICIES = ("user", "temporary", "off")


class Boom(Exception):
    pass


class Creator:
    """writes to the path it is given, in two steps, and may fail at any of them"""

    def __init__(self, S, text, fails="no"):
        self.S, self.text, self.fails = S, text, fails
        self.targets, self.arguments = [], []
        self.check = None

    def __call__(self, target, args):
        self.targets.append(target)
        self.arguments.append(args)
        if self.check is not None:
            self.check(target)
        if self.fails == "at once":
            raise Boom()
        with open(target, "w") as f:
            f.write(self.text[:3])
            f.flush()
            if self.fails == "half way":
                raise Boom()
            f.write(self.text[3:])
        if self.fails == "at the end":
            raise Boom()
        return {"made": 1}


def request(creator, force=None):
    return caching.cache_file("Tester", creator, {"a": 1, "b": [1, 2]}, hash_extra="x", extension=".bin", force=force)


def watch(S):
    """what the files look like at every point at which the process may stop"""
    snaps = []
    S.every_step(lambda: snaps.append(S.tree()))
    return snaps


def whole(S, snaps, path, texts, label="the final name holds a complete file or nothing at every point"):
    for tree in snaps:
        for p, text, complete in tree:
            if p == path:
                S.check(label, complete and text in texts)


def leftovers(S, path):
    """an earlier process may have stopped in the middle"""
    k = S.choice("left by a crash", "nothing", "tmp", "lock", "both")
    if k in ("tmp", "both"):
        S.write(path + ".tmp", "new-h")
    if k in ("lock", "both"):
        S.write(path + ".lock", "")


@harness(timeout=150)
def creation(S):
    """no file yet: created once, published complete; a failure reaches the requester and can be retried"""
    d = S.scratch()
    cache = world(S, S.choice("policy", *POLICIES), d)
    managed = cache.policy.managed()
    known = None
    if managed:
        known = request(Creator(S, "old text"))
        S.remove(known)
        leftovers(S, known)
    new = Creator(S, "new text", S.choice("fails", "no", "at once", "half way", "at the end"))
    snaps = watch(S)
    failed = False
    path = None
    try:
        path = request(new, S.choice("force", None, False, True))
    except Boom:
        failed = True
    S.check("the failure of the creator reaches the requester", failed == (new.fails != "no"))
    S.check("the creator is called once", len(new.targets) == 1)
    S.check("the creator gets the arguments", new.arguments[0] == {"a": 1, "b": [1, 2]})
    if failed:
        if managed:
            S.check("a failed creation publishes nothing", not S.exists(known))
            whole(S, snaps, known, ())
            S.check("the lock is free after a failure", not S.lock_held(known + ".lock"))
        again = Creator(S, "third text")
        path = request(again)
        S.check("a failed creation can be retried", len(again.targets) == 1 and S.content(path) == "third text")
    else:
        S.check("the file is published", S.content(path) == "new text")
        S.check("the creator does not write under the final name", new.targets[0] != path)
        if managed:
            S.check("equal requests have the same path", path == known)
    whole(S, snaps, path, ("new text", "third text"))
    S.check("the lock is free afterwards", not S.lock_held(path + ".lock"))


@harness(timeout=150)
def reuse(S):
    """a file is there: it is reused unless recreation is forced, and is replaced by a complete one"""
    d = S.scratch()
    world(S, S.choice("policy", "user", "temporary"), d)
    path = request(Creator(S, "old text"))
    if S.choice("known to the register", True, False) is False:
        caching.CACHE._decache_file(path)
        S.write(path, "old text")
    leftovers(S, path)
    seen = []
    forced = S.choice("forced", False, True)
    answer = S.choice("answer", "plain", "callable")
    force = forced if answer == "plain" else (lambda args, p, owner_data: (seen.append((args, p)), forced)[1])
    if not forced and S.choice("default", False, True):
        force = None
        answer = "default"
    new = Creator(S, "new text", S.choice("fails", "no", "at once", "half way", "at the end"))
    snaps = watch(S)
    failed = False
    got = None
    try:
        got = request(new, force)
    except Boom:
        failed = True
    if answer == "callable":
        S.check("the decision is asked once, with the arguments and the path", len(seen) == 1 and seen[0][0] == {"a": 1, "b": [1, 2]} and seen[0][1] == path)
    if not forced:
        S.check("a present file is reused", not failed and got == path and len(new.targets) == 0 and S.content(path) == "old text")
    else:
        S.check("a forced file is created once", len(new.targets) == 1)
        S.check("the failure of the creator reaches the requester", failed == (new.fails != "no"))
        if not failed:
            S.check("a forced file is new", got == path and S.content(path) == "new text")
    whole(S, snaps, path, ("old text", "new text"))
    S.check("the lock is free afterwards", not S.lock_held(path + ".lock"))
    last = Creator(S, "third text")
    got = request(last)
    S.check("a later request finds it or creates it", got == path and S.content(path) == ("old text" if not forced else "third text" if failed else "new text"))


@harness(timeout=90, split={"forced": 2, "policy": 2}, search_s=5, samples=400)
def concurrent(S):
    """other processes request, force or trim the same file at any point"""
    forced = S.choice("forced", False, True)
    d = S.scratch()
    world(S, S.choice("policy", "user", "temporary"), d)
    deletes = S.choice("others remove it", False, True)
    path = request(Creator(S, "old text"))
    if S.choice("present", True, False) is False:
        S.remove(path)
    lock = path + ".lock"

    def others():
        # while this process holds the lock others may remove the file but not create it
        if S.exists(path):
            if deletes and S.choice("others", "wait", "remove") == "remove":
                S.remove(path)
        elif not S.lock_held(lock):
            if S.choice("others", "wait", "publish") == "publish":
                S.write(path, "other text")

    new = Creator(S, "new text", S.choice("fails", "no", "half way"))

    def at_creation(target):
        S.check("a file is created only while its lock is held", S.lock_held(lock))
        S.check("a file is created only when it is absent", not S.exists(path))
    new.check = at_creation
    snaps = watch(S)
    S.before_ops(others)
    failed = False
    got = None
    try:
        got = request(new, forced)
    except Boom:
        failed = True
    S.check("the creator is called at most once", len(new.targets) <= 1)
    S.check("the failure of the creator reaches the requester", failed == (new.fails != "no" and len(new.targets) == 1))
    if not failed:
        S.check("the path is that of the file", got == path)
    whole(S, snaps, path, ("old text", "new text", "other text"))
    S.check("the lock is free afterwards", not S.lock_held(lock))


@harness(timeout=150)
def lock_files(S):
    """guarantee towards the other processes: a lock file is removed only by the process holding it"""
    d = S.scratch()
    world(S, S.choice("policy", *POLICIES), d)
    new = Creator(S, "new text")
    locks = []
    S.on_filelock(lambda p: locks.append(p))
    seen = []

    def look():
        for p in locks:
            if not S.exists(p) and p not in seen:
                seen.append(p)
                S.check("a lock file is removed only while it is held", S.lock_held(p))
    S.every_step(look)
    request(new)
    S.check("a lock is taken for the creation", len(locks) == 1 and len(new.targets) == 1)
