"""C24 A remote inventory is refreshed when needed and only then."""
import os

from pyvc.harness import harness
from earthkit.regrid.backends import db as db_module
from earthkit.regrid.backends.db import MatrixDb, MatrixIndex
from earthkit.regrid.utils import caching
from specs.diskcache import Manager, Policy, world

PROPERTY = "C24"
LEVEL_NOTE = ("one request is verified for every state that earlier requests and other processes can leave behind: unused, used or reset "
              "inventory (also after failures), any cached copy and register entry, any remote index and checksum; longer histories follow by repetition")
ASSUMPTIONS = ["which requests an index can answer is a function of its content (C02, C23)", "download_and_cache gives a local copy of the remote file or raises",
               "without a managed cache, file names made of the time and a random number do not repeat",
               "the disk cache's manager follows its contract (C11, C12)"]
URL = "https://host/inventory"


class Register(Manager):
    """the manager with the data kept for the index"""

    def _update_entry(self, path, owner_data=None):
        if self.policy.managed():
            self.owner_data = None if owner_data is None else self.S.json_text(owner_data)

    def _decache_file(self, path):
        self.owner_data = None
        if self.S.exists(path):
            os.unlink(path)


class Unmanaged:
    """contract of cache_file without a managed cache (C10): a new file every time"""

    def __init__(self, d):
        self.d, self.n = d, 0

    def cache_file(self, owner, create, args, hash_extra=None, extension=".cache", force=None, replace=None):
        self.n += 1
        path = self.d + "/file" + str(self.n) + extension
        create(path, args)
        return path


class Down(Exception):
    pass


class Remote:
    """the site: an index, the checksum it publishes; counts the downloads"""

    def __init__(self, S, d):
        self.S, self.d = S, d
        self.text = S.plain("remote index")
        self.sha = S.plain("published checksum")
        self.fails = "no"
        self.end = "\n"
        self.copies = {URL + "/index.json.sha256": S.plain("checksum seen before"), URL + "/index.json.gz": S.plain("index seen before")}
        self.forget()

    def forget(self):
        self.shas = 0
        self.indexes = 0
        self.others = 0

    def download(self, url, force=None, **kwargs):
        if not force and url in self.copies:
            # a copy downloaded before is good enough, unless it is found to be out of date
            return self.serve(url, self.copies[url])
        if url == URL + "/index.json.sha256":
            self.shas += 1
            if self.fails == "checksum":
                raise Down()
            return self.serve(url, self.sha)
        if url == URL + "/index.json.gz":
            self.indexes += 1
            if self.fails == "index":
                raise Down()
            return self.serve(url, self.text)
        self.others += 1
        raise Down()

    def serve(self, url, text):
        self.copies[url] = text
        if url == URL + "/index.json.sha256":
            p = self.d + "/download.sha"
            self.S.write(p, text + self.end)
        else:
            p = self.d + "/download.gz"
            self.S.write(p, self.S.gzip(text))
        return p


def has(S, text, q):
    return S.pure_bool("has", text, q)


def indexes(S):
    """an index that was loaded answers the requests its text has"""
    loads = []

    def load(self, path):
        with open(path) as f:
            self.text_ = f.read()
        loads.append(path)

    def find(self, gi, go, m):
        if has(S, self.text_, gi["q"]):
            return {"from": self.text_, "q": gi["q"]}
        return None
    S.patch(MatrixIndex, "load", load)
    S.patch(MatrixIndex, "find", find)
    return loads


def remote_world(S, policy):
    d = S.scratch()
    if S.symbolic:
        if policy == "off":
            S.patch(caching, "cache_file", Unmanaged(d).cache_file)
        c = Register(S, policy, d)
        S.patch(caching, "CACHE", c)
    else:
        c = world(S, policy, d)
    r = Remote(S, d)
    S.patch(db_module, "download_and_cache", r.download)
    return c, r


class Model:
    """what must happen"""

    def __init__(self, S, remote, managed):
        self.S, self.remote, self.managed = S, remote, managed
        self.cached, self.sha = None, None         # the copy in the disk cache, the checksum known for it
        self.loaded, self.checked = None, False

    def reset(self):
        self.loaded, self.checked = None, False
        if not self.managed:
            self.cached, self.sha = None, None

    def request(self, q):
        """-> (text the answer comes from, or None; the downloads: checksums as (least, most), indexes; failed)"""
        shas, indexes = (0, 0), 0
        r = self.remote
        if self.loaded is None:
            if self.cached is None:
                indexes += 1
                if r.fails == "index":
                    return None, shas, indexes, True
                self.fetched()
            self.loaded = self.cached
        if has(self.S, self.loaded, q):
            return self.loaded, shas, indexes, False
        if self.checked:
            return None, shas, indexes, False
        known = self.cached is not None and self.sha is not None
        if known and self.managed:
            shas = (1, 1)
            if r.fails == "checksum":
                return None, shas, indexes, True
        if not (known and self.managed and self.sha == r.sha):
            # asking for the checksum as well does not matter
            indexes += 1
            if r.fails == "index":
                self.cached, self.sha = (None, None) if self.managed else (self.cached, self.sha)
                return None, shas, indexes, True
            self.fetched()
        self.checked = True
        self.loaded = self.cached
        return (self.loaded if has(self.S, self.loaded, q) else None), shas, indexes, False

    def fetched(self):
        self.cached = self.remote.text
        self.sha = db_module.make_sha(self.remote.text)


def request(S, db, model, remote, loads, q, label=""):
    remote.forget()
    n = len(loads)
    loaded = model.loaded
    want, shas, indexes, fails = model.request(q)
    got, failed = None, False
    try:
        got = db.find_entry({"q": q}, {"q": q}, "linear")
    except Down:
        failed = True
    S.check("a failing download is reported" + label, failed == fails)
    S.check("checksums are asked for when needed and only then" + label, shas[0] <= remote.shas and remote.shas <= shas[1])
    S.check("the index is downloaded when needed and only then" + label, remote.indexes == indexes)
    S.check("nothing else is downloaded" + label, remote.others == 0)
    S.check("answered from the right index" + label, (got is None) == (want is None) and (got is None or got["from"] == want and got["q"] == q))
    if loaded is not None and remote.indexes == 0 and remote.shas == 0:
        S.check("an index in use is not read again" + label, len(loads) == n)


@harness(timeout=150, split={"policy": 2, "before": 6, "cached": 4})
def step(S):
    """a request to a remote inventory in any state"""
    policy = S.choice("policy", "user", "off")
    before = S.choice("before", "nothing", "its path", "request", "request, reset", "failing request", "failing request, reset")
    cached = S.choice("cached", "as loaded", "checksum unknown", "no checksum", "gone")
    managed = policy == "user"
    S.assume(managed or cached == "as loaded" or before == "its path" and cached == "gone")
    c, remote = remote_world(S, policy)
    loads = indexes(S)
    model = Model(S, remote, managed)
    # another process has downloaded it
    path = MatrixDb.from_url(URL).index_file_path()
    known = S.plain("known checksum")
    if managed:
        model.fetched()
        caching.CACHE._update_entry(path, {"sha256": known})
        model.sha = known
    remote.text = S.plain("next remote index")
    db = MatrixDb.from_url(URL)
    if before == "its path":
        path = db.index_file_path()
        if not managed:
            model.fetched()
        remote.text = S.plain("last remote index")
        remote.sha = S.plain("last published checksum")
    elif before != "nothing":
        if before != "request" and before != "request, reset":
            remote.fails = S.choice("failing", "checksum", "index")
        request(S, db, model, remote, loads, S.plain("first request"), " (first)")
        remote.fails = "no"
        remote.text = S.plain("last remote index")
        remote.sha = S.plain("last published checksum")
    if before == "request, reset" or before == "failing request, reset":
        db._reset()
        model.reset()
    if model.cached is not None:
        if cached == "checksum unknown":
            caching.CACHE._update_entry(path, None)
            model.sha = None
        elif cached == "no checksum":
            caching.CACHE._update_entry(path, {})
            model.sha = None
        elif cached == "gone":
            S.remove(path)
            model.cached, model.sha = None, None
    remote.fails = S.choice("fails", "no", "checksum", "index")
    q = S.plain("request")
    request(S, db, model, remote, loads, q)
    remote.fails = S.choice("fails then", "no", "checksum")
    request(S, db, model, remote, loads, q, " (next)")


@harness(timeout=150)
def local(S):
    """a local inventory is read once, and nothing is downloaded"""
    d = S.scratch()
    S.write(d + "/index.json", S.plain("index"))
    r = Remote(S, d)
    S.patch(db_module, "download_and_cache", r.download)
    loads = indexes(S)
    db = MatrixDb.from_path(d)
    text = S.content(d + "/index.json")
    for i in range(2):
        q = S.plain("request")
        got = db.find_entry({"q": q}, {"q": q}, "linear")
        S.check("answered from the index", (got is not None) == has(S, text, q))
    S.check("read once", len(loads) == 1 and loads[0] == d + "/index.json")
    S.check("nothing is downloaded", r.shas == 0 and r.indexes == 0 and r.others == 0)


@harness(timeout=150)
def forced(S):
    """reloading by force downloads the index again whatever is known of it"""
    policy = S.choice("policy", "user", "off")
    c, remote = remote_world(S, policy)
    loads = indexes(S)
    db = MatrixDb.from_url(URL)
    db.index_file_path()
    remote.text = S.plain("next remote index")
    remote.forget()
    db._accessor.reload(force=True)
    S.check("downloaded again", remote.indexes == 1)
    S.check("the new index", S.content(db.index_file_path()) == remote.text)
    q = S.plain("request")
    got = db.find_entry({"q": q}, {"q": q}, "linear")
    S.check("answered from it, without another check", (got is not None) == has(S, remote.text, q) and remote.indexes == 1 and remote.shas <= 1)
