"""Shared by C10-C12: the disk cache under a scratch directory. Symbolically the manager is replaced by the contracts of
its operations (proved in C11 and C12); at run time it is the real one, with its thread and its database."""
import os
import sqlite3

from earthkit.regrid.utils import caching
from earthkit.regrid.utils import config as cm


class Policy:
    def __init__(self, name, d):
        self.name, self.d = name, d

    def managed(self):
        return self.name != "off"

    def directory(self):
        return self.d

    def file_in_cache_directory(self, path):
        return path.startswith(self.d + "/")


class Manager:
    """contract of the cache manager's operations used by cache_file"""

    def __init__(self, S, name, d):
        self.S = S
        self.policy = Policy(name, d)
        self.owner_data = None
        self.registered = []
        self.updated = []

    def directory(self):
        return self.policy.directory()

    def _register_cache_file(self, path, owner, args, parent=None):
        if not self.policy.managed():
            return None
        self.registered.append(path)
        return {"path": path, "owner": owner, "owner_data": self.owner_data}

    def _decache_file(self, path):
        if self.policy.managed() and self.S.exists(path):
            self.owner_data = None
            try:
                os.unlink(path)
            except OSError:
                pass

    def _update_entry(self, path, owner_data=None):
        if self.policy.managed():
            self.S.check("an entry is completed for a complete file", self.S.complete(path))
            self.updated.append((path, owner_data))

    def check_size(self):
        return None


def world(S, name, d, **settings):
    """a cache with the policy 'user', 'temporary' or 'off' whose files go to directory d"""
    if S.symbolic:
        c = Manager(S, name, d)
        S.patch(caching, "CACHE", c)
        return c
    conf = cm.Config(None, dict(cm.DEFAULTS))
    conf._config.update({"cache-policy": name, "user-cache-directory": d, "temporary-cache-directory-root": d, "temporary-directory-root": d})
    conf._config.update({k.replace("_", "-"): v for k, v in settings.items()})
    S.patch(caching, "CONFIG", conf)
    S.patch(caching.Cache, "_created", False)
    c = caching.Cache()
    S.patch(caching, "CACHE", c)
    if name == "off":
        # the directory of the 'off' policy is a fresh temporary directory
        pass
    S.undo.append(("call", lambda: stop(c)))
    return c


def stop(c):
    for m in list(vars(c).values()):
        if isinstance(m, caching.CacheManager) and m.is_alive():
            end(m)


def end(m):
    def work():
        close(m)
        raise SystemExit
    m.enqueue(work)
    m.join(5)


def close(m):
    for x in list(vars(m).values()):
        if isinstance(x, sqlite3.Connection):
            x.close()


class Settings:
    def __init__(self, values):
        self.values = values

    def get(self, name):
        return self.values.get(name)


def manager(S, d, limit=None, usage=None):
    """a cache manager on directory d whose operations are called directly (not through its queue)"""
    S.patch(caching, "CONFIG", Settings({"cache-policy": "user", "user-cache-directory": d, "maximum-cache-size": limit,
                                         "maximum-cache-disk-usage": usage}))
    S.patch(caching.humanize, "bytes", lambda n: "some bytes")
    m = caching.CacheManager()
    m._policy = caching.UserCachePolicy()
    if not S.symbolic:
        S.undo.append(("call", lambda: close(m)))
    return m


def rows(m):
    """the register: path -> record"""
    return {r["path"]: {k: r[k] for k in r.keys()} for r in m.connection.execute("SELECT * FROM cache ORDER BY path").fetchall()}


class Done:
    def __init__(self, value):
        self.value = value

    def result(self):
        return self.value


class Quiet:
    """in place of the thread with the register: what it is told"""

    def __init__(self):
        self.told = []

    def start(self):
        pass

    def enqueue(self, func, *args, **kwargs):
        return Done(func(*args, **kwargs))

    def _config_changed(self, policy):
        self.told.append(policy)
