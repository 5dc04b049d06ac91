"""C12 Disk cache trimming frees enough, oldest first, and spares what it must."""
from pyvc.harness import harness
from earthkit.regrid.utils import caching
from specs.diskcache import Quiet, Settings, manager, rows

PROPERTY = "C12"
LEVEL_NOTE = ("sqlite3 is replaced by the contract in pyvc/sqlm.py (tables of symbolic values; in any_register and deletion a register of any size), "
              "checked against the real SQLite at run time; trimming/checking/purging enumerate registers of up to three files with arbitrary sizes and limits (bounded in the number of entries only)")
ASSUMPTIONS = ["the operating system deletes what it is asked to delete (a failed deletion is only logged)",
               "the system clock increases, and a size check takes less than 100 seconds"]
KINDS = ("complete", "creating", "lost", "orphan", "young", "child", "directory")


def name(d, i):
    return d + "/" + "abc"[:i + 1] + ".bin"


def entry(S, m, d, i, kind, size):
    """one more file of the cache, in one of the states histories leave it in"""
    p = name(d, i)
    if kind in ("complete", "creating", "lost"):
        m._register_cache_file(p, "tester", {"n": i})
        if kind != "creating":
            S.sized(p, size)
            m._update_entry(p, {"made": i})
            if kind == "lost":
                S.remove(p)
    elif kind == "directory":
        m._register_cache_file(p, "tester", {"n": i})
        S.mkdir(p)
        S.sized(p + "/x", size)
        S.sized(p + "/y", 7)
        m._update_entry(p)
    elif kind == "child":
        # left by an earlier version of the file before it: found by the housekeeping
        p = name(d, i - 1) + ".d"
        S.sized(p, size)
        S.old(p)
    else:
        S.sized(p, size)
        if kind == "orphan":
            S.old(p)
    return p


def total(rs):
    n = 0
    for r in rs.values():
        if r["size"] is not None:
            n = n + r["size"]
    return n


def latest(rs):
    """creation date from which entries are protected"""
    t = None
    for r in rs.values():
        if r["size"] is None and (t is None or r["creation_date"] < t):
            t = r["creation_date"]
    if t is not None:
        return t
    for r in rs.values():
        if t is None or r["creation_date"] > t:
            t = r["creation_date"]
    return t


def evictable(rs):
    t = latest(rs)
    return [p for p, r in rs.items() if r["size"] is not None and r["creation_date"] < t]


def below(rs, p):
    """the children of p and theirs"""
    r = []
    for q, c in rs.items():
        if c["parent"] == p:
            r += [q] + below(rs, q)
    return r


def judge(S, before, after, there, limit):
    """before: the register when the removal starts; there: which files are there"""
    gone = [p for p in before if p not in after]
    kept = [p for p in before if p in after]
    for p in kept:
        S.check("what is kept keeps its record", after[p] == before[p])
        S.check("what is kept keeps its file", S.exists(p) == there[p])
    for p in gone:
        S.check("what is removed loses its file and its record", not S.exists(p))
    S.check("nothing new is registered by the removal", len(after) == len(kept))
    can = evictable(before)
    with_parent = []
    for p in gone:
        for q in below(before, p):
            with_parent.append(q)
            S.check("children go with their parent", q in gone)
    for p in gone:
        S.check("only what may be removed is removed", p in can or p in with_parent)
    if total(before) <= limit:
        S.check("within the limit nothing is removed", len(gone) == 0)
        return
    left = [p for p in can if p not in gone]
    S.check("the total is within the limit or nothing is left to remove", total(after) <= limit or len(left) == 0)
    roots = [p for p in gone if p in can and p not in with_parent]
    orphans = [p for p in roots if before[p]["owner"] == "orphans"]
    others = [p for p in roots if before[p]["owner"] != "orphans"]
    last = None
    for p in others:
        for q in left:
            S.check("orphans are removed first", before[q]["owner"] != "orphans")
            S.check("the least recently accessed are removed first", before[p]["last_access"] < before[q]["last_access"])
        if last is None or before[last]["last_access"] < before[p]["last_access"]:
            last = p
    freed = 0
    for p in gone:
        if there[p]:
            freed = freed + before[p]["size"]
    need = total(before) - limit

    def part(p):
        n = 0
        for q in [p] + below(before, p):
            if there[q] and q in gone:
                n = n + before[q]["size"]
        return n
    S.check("enough is freed or nothing is left to remove", freed >= need or len(left) == 0)
    if last is not None:
        S.check("the removal stops as soon as enough is freed", freed - part(last) < need)
    elif len(orphans) == 1:
        S.check("the removal stops as soon as enough is freed", freed - part(orphans[0]) < need)
    elif len(orphans) > 1:
        S.check("the removal stops as soon as enough is freed", any([freed - part(p) < need for p in orphans]))


def history(S, m, d, n, again=False):
    """again: the first is requested once more before the others"""
    sizes = [S.int("size" + str(i), 0, None) for i in range(n)]
    paths = []
    for i in range(n):
        kind = S.choice("kind" + str(i), *[k for k in KINDS if k != "child" or i > 0])
        paths.append((entry(S, m, d, i, kind, sizes[i]), kind))
        if again and i == 0:
            S.suppose(kind in ("complete", "lost"))
            m._register_cache_file(paths[0][0], "tester", {"n": 0})
    return paths


def touch(S, m, paths):
    """one of the entries is requested again"""
    k = S.choice("touched", *range(-1, len(paths)))
    if k >= 0:
        p, kind = paths[k]
        S.suppose(kind in ("complete", "creating", "lost", "directory"))
        old = rows(m)
        m._register_cache_file(p, "tester", {"n": k})
        new = rows(m)
        for q in old:
            if q == p:
                S.check("a request makes a file the most recently accessed", all([new[x]["last_access"] < new[p]["last_access"] for x in new if x != p]))
                S.check("a request changes nothing else", all([new[p][c] == old[p][c] for c in ("path", "owner", "args", "creation_date", "size", "parent", "owner_data")]))
            else:
                S.check("a request does not touch other files", new[q] == old[q])


def found(S, d, paths, before):
    """what the housekeeping takes for an orphan, and of what"""
    kinds = dict(paths)
    for i in range(len(paths)):
        p, kind = paths[i]
        if kind == "young":
            S.check("a file written lately is not taken for an orphan", p not in before)
        else:
            S.check("every other file is on the register", p in before)
        if kind == "child":
            old = kinds[name(d, i - 1)] if name(d, i - 1) in kinds else "child"
            if old in ("complete", "creating", "lost", "directory"):
                S.check("a leftover belongs to the file whose name it extends", before[p]["parent"] == name(d, i - 1))
        elif kind != "young":
            S.check("other files belong to none", before[p]["parent"] is None)
        if kind in ("child", "orphan"):
            S.check("what the housekeeping finds is an orphan", before[p]["owner"] == "orphans")
        elif kind != "young":
            S.check("other files keep their owner", before[p]["owner"] == "tester")


def present(S, rs):
    return {p: S.exists(p) for p in rs}


@harness(timeout=150, split={"kind0": 6, "kind1": 7})
def trimming(S):
    """any three files, found by the housekeeping before or not, and any limit"""
    S.clock_increases()
    d = S.scratch()
    limit = S.int("limit", 0, None)
    m = manager(S, d, limit)
    again = S.choice("the first", "once", "again") == "again"
    paths = history(S, m, d, 3, again)
    if not again:
        touch(S, m, paths)
    m._housekeeping()
    before = rows(m)
    there = present(S, before)
    found(S, d, paths, before)
    strangers = [p for p, kind in paths if p not in before]
    m._check_cache_size()
    judge(S, before, rows(m), there, limit)
    for p in strangers:
        S.check("what is not registered is left alone", S.exists(p))


@harness(timeout=150, split={"kind0": 6, "kind1": 7})
def checking(S):
    """what the housekeeping of the check itself finds is counted too"""
    S.clock_increases()
    d = S.scratch()
    limit = S.int("limit", 0, None)
    m = manager(S, d, limit)
    paths = history(S, m, d, 2 if S.choice("files", 2, 3) == 2 else 3)
    before = rows(m)
    there = {p: S.exists(p) for p, kind in paths}
    m._check_cache_size()
    after = rows(m)
    if total(before) <= limit:
        S.check("within the limit nothing is registered or removed", after == before and all([S.exists(p) == there[p] for p, kind in paths]))
    S.check("the total is within the limit or nothing is left to remove", total(after) <= limit or len(evictable(after)) == 0)
    for p, kind in paths:
        if kind == "young":
            S.check("a file written lately is left alone", p not in after and S.exists(p))
        elif kind == "creating":
            S.check("a file being created stays on the register", p in after and after[p] == before[p])
        elif p in after:
            S.check("a file on the register is there", S.exists(p) == there[p])
        elif p in before:
            S.check("what is removed loses its file and its record", not S.exists(p))
    again = rows(m)
    m._check_cache_size()
    if total(again) <= limit:
        S.check("a second check changes nothing", rows(m) == again)


@harness(timeout=150, split={"kind0": 6})
def limits(S):
    """no limit, a limit of the disk usage, both; the policy that manages nothing"""
    S.clock_increases()
    d = S.scratch()
    usage = S.choice("maximum usage", None, 90, 0)
    limit = S.int("limit", 0, None) if S.choice("limited", False, True) else None
    m = manager(S, d, limit, usage)
    paths = history(S, m, d, 2)
    known = S.choice("found before", True, False)
    if known:
        m._housekeeping()
    else:
        S.suppose(limit is None and usage is not None)
    before = rows(m)
    there = present(S, before)
    percent = S.choice("percent", 0, 90, 91, 100)
    size = S.int("disk", 1, None)
    S.patch(caching, "disk_usage", lambda path: Usage(S, d, path, percent, size))
    unmanaged = S.choice("managed", True, False) is False
    if unmanaged:
        m._policy = caching.EmptyCachePolicy()
    m._check_cache_size()
    if unmanaged:
        m._policy = caching.UserCachePolicy()
    after = rows(m)
    used = total(before)
    if unmanaged or (limit is None or used <= limit) and (usage is None or percent <= usage):
        S.check("within the limits nothing is removed", after == before and all([S.exists(p) == there[p] for p in before]))
    elif usage is None or percent <= usage:
        judge(S, before, after, there, limit)
    else:
        need = (percent - usage) * size * 0.01
        if limit is None and known:
            judge(S, before, after, there, used - need)
        gone = 0
        for p in before:
            if p not in after and there[p]:
                gone = gone + before[p]["size"]
        S.check("enough is freed for the disk usage or nothing is left to remove", gone >= need or len(evictable(after)) == 0)
        for p, kind in paths:
            if kind in ("orphan", "child"):
                S.check("files that are not registered are found", p in after or not S.exists(p))


class Usage:
    def __init__(self, S, d, path, percent, size):
        S.check("the disk of the cache is looked at", path == d)
        self.percent, self.total = percent, size
        self.free = self.avail = size * (100 - percent) * 0.01


@harness(timeout=150, split={"kind0": 6, "kind1": 7})
def purging(S):
    """purge and purge with a matcher"""
    S.clock_increases()
    d = S.scratch()
    m = manager(S, d)
    paths = history(S, m, d, 3)
    m._housekeeping()
    before = rows(m)
    there = present(S, before)
    which = S.choice("matcher", "none", *[p for p, kind in paths])
    if which == "none":
        m._purge_cache()
        after = rows(m)
        for p in after:
            S.check("no completed file is left", after[p]["size"] is None or after[p]["size"] == 0)
        for p in before:
            if p not in after:
                S.check("what is removed loses its file and its record", not S.exists(p))
        return
    m._purge_cache(lambda e: e["path"] == which)
    after = rows(m)
    gone = [which] + below(before, which)
    for p in before:
        if p in gone:
            S.check("what matches goes, with its children", p not in after and not S.exists(p))
        else:
            S.check("what does not match stays", p in after and after[p] == before[p] and S.exists(p) == there[p])


@harness(timeout=150)
def sizes(S):
    """the size on the register is that of the file, or of all the files below a directory"""
    S.clock_increases()
    d = S.scratch()
    m = manager(S, d)
    p = d + "/a.bin"
    sizes = [S.int("size" + str(i), 0, None) for i in range(4)]
    how = S.choice("how", "completed", "request left open", "found")
    if how != "found":
        m._register_cache_file(p, "tester", {"n": 1})
    what = S.choice("what", "file", "directory", "directories", "empty directory")
    if what == "file":
        S.sized(p, sizes[0])
        size = sizes[0]
        if how == "found":
            S.old(p)
    else:
        S.mkdir(p)
        size = 0
        if what != "empty directory":
            S.sized(p + "/x", sizes[0])
            S.sized(p + "/y", sizes[1])
            size = sizes[0] + sizes[1]
        if what == "directories":
            S.mkdir(p + "/sub")
            S.sized(p + "/sub/x", sizes[2])
            S.sized(p + "/sub/z", sizes[3])
            size = size + sizes[2] + sizes[3]
        if how == "found":
            S.old(p)
    if how == "completed":
        m._update_entry(p, {"made": 1})
    else:
        m._housekeeping()
    r = rows(m)
    S.check("the file is on the register", list(r) == [p])
    S.check("the size is that of the file or of all the files below it", r[p]["size"] == size)
    S.check("the kind is recorded", r[p]["type"] == ("file" if what == "file" else "directory"))
    S.check("the total is the sum of the sizes", m._cache_size() == size)


class Stat:
    def __init__(self, S):
        self.f_frsize = S.choice("fragment", 512, 4096)
        self.f_bsize = S.choice("block", 4096, 65536)
        self.f_blocks = S.int("blocks", 1, None)
        self.f_bfree = S.int("free", 0, None)
        self.f_bavail = S.int("available", 0, None)
        S.assume(self.f_bavail <= self.f_bfree)
        S.assume(self.f_bfree <= self.f_blocks)


@harness(timeout=150)
def disk(S):
    """the disk usage is the nearest percentage of what is not available"""
    st = Stat(S)
    S.patch(caching.os, "statvfs", lambda path: st)
    df = caching.disk_usage("/somewhere")
    S.check("the size of the disk", df.total == st.f_blocks * st.f_frsize)
    used = st.f_blocks - st.f_bavail
    S.check("the percentage in use, to the nearest", -51 * st.f_blocks <= 100 * used - df.percent * st.f_blocks)
    S.check("the percentage in use, to the nearest", 100 * used - df.percent * st.f_blocks <= 51 * st.f_blocks)


@harness(timeout=150)
def limits_follow(S):
    """the limits are those of the settings in force, and the size is checked when they change"""
    d = S.scratch()
    values = {"cache-policy": "user", "user-cache-directory": d, "maximum-cache-size": S.int("limit", 0), "maximum-cache-disk-usage": None}
    S.patch(caching, "CONFIG", Settings(values))
    S.patch(caching.Cache, "_created", False)
    S.patch(caching, "CacheManager", Quiet)
    c = caching.Cache()
    first = c.policy.maximum_cache_size()
    S.check("the limit is the configured one", first == values["maximum-cache-size"] and c.policy.maximum_cache_disk_usage() is None)
    n = len(c._manager.told)
    what = S.choice("change", "size", "usage", "nothing")
    if what == "size":
        values["maximum-cache-size"] = S.choice("no limit", True, False) and None or S.int("new limit", 0)
    elif what == "usage":
        values["maximum-cache-disk-usage"] = S.int("usage", 0, 100)
    changed = what == "usage" or values["maximum-cache-size"] != first
    c._config_changed()
    p = c.policy
    S.check("the limits follow the settings", p.maximum_cache_size() == values["maximum-cache-size"] and p.maximum_cache_disk_usage() == values["maximum-cache-disk-usage"])
    q = c._manager.told[-1]
    S.check("the register's limits do", q.maximum_cache_size() == values["maximum-cache-size"] and q.maximum_cache_disk_usage() == values["maximum-cache-disk-usage"])
    if changed:
        S.check("the register is told", len(c._manager.told) == n + 1)
    S.check("they are checked", q.is_cache_size_managed() == (values["maximum-cache-size"] is not None or values["maximum-cache-disk-usage"] is not None))


class Told(caching.CacheManager):
    def _check_cache_size(self):
        self.checked = self.checked + 1


@harness(timeout=150)
def told(S):
    """the register checks its size when it is told of new settings, with them"""
    d = S.scratch()
    manager(S, d, 5)
    m = Told()
    m.checked = 0
    old = m.connection
    p = caching.UserCachePolicy()
    m._config_changed(p)
    S.check("the size is checked", m.checked == 1)
    S.check("with the new settings and another database", m._policy is p and m.connection is not old)


# ------------------------------------------------------------------------------- registers of any size
def any_row(S):
    """any record"""
    i = S.choice("row", "complete", "creating")
    return {"path": S.plain("path"), "owner": S.opaque("owner"), "size": None if i == "creating" else S.int("size", 0, None),
            "creation_date": S.time("creation"), "last_access": S.time("access"),
            "accesses": S.int("accesses", 1, None), "parent": None}


def any_child(S):
    return {"path": S.plain("path"), "owner": S.opaque("owner"), "size": S.int("size", 0, None),
            "parent": S.opaque("parent") if S.choice("child", False, True) else None}


class Trimmer(caching.CacheManager):
    """the contract of _delete_entry (proved by `deletion`): it removes the entry and returns the bytes freed"""

    def _delete_entry(self, entry):
        S = self.S
        n = S.int("freed", 0, None)
        S.mark(entry)
        self.freed = self.freed + n
        self.last = n
        return n


def date(reg, purge):
    if purge:
        return None
    t = reg.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
    if t is None:
        t = reg.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[0]
    return t


@harness(native=False, timeout=150, split={"purge": 2, "about": 4})
def any_register(S):
    """the removal on a register of any size"""
    S.clock_increases()
    d = S.scratch()
    manager(S, d)
    m = Trimmer()
    m._policy = caching.UserCachePolicy()
    m.S, m.freed, m.last = S, 0, 0
    reg = m._connection = S.any_register(lambda: any_row(S))
    about = S.choice("about", "amounts", "order", "orphans", "dates")
    need = S.int("need", None, None)
    purge = S.choice("purge", False, True)
    got = m._decache(need, purge)
    sel = S.selects(reg)
    if need <= 0:
        S.check("nothing is removed when nothing is needed", len(sel) == 0 and m.freed == 0)
        return
    if about == "amounts":
        S.check("enough is freed or all that can be is removed", m.freed >= need or len(sel) == 2)
        S.check("the removal stops as soon as enough is freed", m.freed - m.last < need)
        if len(sel) == 2:
            S.each("every orphan that may be removed is removed before others", S.rows_of(sel[0]), lambda r: S.marks(r) == 1)
        if m.freed < need:
            S.each("all that may be removed is removed", S.rows_of(sel[1]), lambda r: S.marks(r) == 1)
        return
    last = sel[len(sel) - 1]
    x = S.any_row(reg)
    if about == "order":
        if len(sel) == 2:
            S.in_order("the least recently accessed are removed first", last, "last_access")
            protected = date(reg, purge)
            if x["size"] is not None and (purge or x["creation_date"] < protected):
                S.check("everything that may be removed is considered", S.takes(last, x))
    elif about == "orphans":
        if S.takes(sel[0], x):
            S.check("orphans are removed first", x["owner"] == "orphans")
        elif len(sel) == 2:
            protected = date(reg, purge)
            if x["size"] is not None and (purge or x["creation_date"] < protected):
                S.check("every orphan that may be removed comes first", x["owner"] != "orphans")
    else:
        y = S.any_row(reg)
        for s in sel:
            if S.takes(s, x):
                S.check("only completed files are removed", x["size"] is not None)
                if not purge and y["size"] is None:
                    S.check("only files older than any being created are removed", x["creation_date"] < y["creation_date"])


class Deleter(caching.CacheManager):
    """the recursion of _delete_entry is its own contract"""
    top = True

    def _delete_entry(self, entry):
        if self.top:
            self.top = False
            return super()._delete_entry(entry)
        S = self.S
        n = S.int("freed", 0, None)
        S.mark(entry)
        S.check("children go before their parent", S.exists(self.path) == self.there)
        self.freed = self.freed + n
        return n


@harness(native=False, timeout=150)
def deletion(S):
    """the removal of an entry with any number of children"""
    S.clock_increases()
    d = S.scratch()
    manager(S, d)
    m = Deleter()
    m._policy = caching.UserCachePolicy()
    p = d + "/" + S.plain("name")
    m.S, m.freed, m.path = S, 0, p
    reg = m._connection = S.any_register(lambda: any_child(S))
    size = S.int("entry", 0, None)
    kind = S.choice("there", "file", "directory", "lost")
    if kind == "directory":
        S.mkdir(p)
        S.sized(p + "/x", size)
    elif kind == "file":
        S.sized(p, size)
    m.there = kind != "lost"
    given = S.choice("given", "record", "unknown size", "path")
    record = {"path": p, "size": size if given == "record" else None, "owner": "tester", "args": "null"}
    got = m._delete_entry(p if given == "path" else record)
    S.check("the file is gone", not S.exists(p))
    sel = S.selects(reg)
    S.check("the children are looked for once", len(sel) == 1)
    S.each("every child is removed", S.rows_of(sel[0]), lambda r: S.marks(r) == 1)
    x = S.any_row(reg)
    S.check("the children are the records that name it as their parent", S.takes(sel[0], x) == (x["parent"] is not None and x["parent"] == p))
    S.check("exactly its own record is deleted", S.deletes(reg, x) == (x["path"] == p))
    if kind == "lost" or given == "unknown size":
        S.check("what is freed is what its children held", got == m.freed)
    elif kind == "file":
        S.check("what is freed is its size and what its children held", got == m.freed + size)
