"""C25 Disk cache requests are executed once, in order, and answered."""
import threading

from pyvc.harness import harness
from earthkit.regrid.utils import caching
from earthkit.regrid.utils.caching import CacheManager

PROPERTY = "C25"
LEVEL_NOTE = ("one thread at a time between the points where it gives up or takes the condition's lock, where any other thread may act; any number "
              "of requests pending before, any outcome of each")
ASSUMPTIONS = ["threading.Condition excludes other holders of its lock and wakes a waiter that is notified", "the thread of the manager is scheduled"]


class Stop(Exception):
    pass


class Cond:
    """contract of threading.Condition; `others` is what other threads do while the lock is free"""

    def __init__(self, S):
        self.S = S
        self.depth = 0
        self.told = False
        self.busy = False
        self.others = None
        self.late = 0

    def act(self, where):
        if self.others is None or self.busy:
            return
        self.busy = True
        try:
            self.others(where)
        finally:
            self.busy = False

    def acquire(self, *args):
        if self.depth == 0:
            self.act("enter")
        self.depth = self.depth + 1
        return True

    def release(self):
        self.S.check("a lock that is held is released", self.depth > 0)
        self.depth = self.depth - 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()
        return False

    def wait(self, timeout=None):
        self.S.check("waiting with the lock", self.depth > 0)
        d, self.depth = self.depth, 0
        self.told = False
        if timeout is not None and self.late < 2 and self.S.choice("the wait ends", "told", "late") == "late":
            self.late = self.late + 1
            self.depth = d
            return False
        self.act("wait")
        self.depth = d
        return True

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        self.S.check("notifying with the lock", self.depth > 0)
        self.told = True

    def notify_all(self):
        self.notify()


class Requests:
    """what is asked of the manager: executed exactly once each, in the order of submission"""

    def __init__(self, S, first):
        self.S = S
        self.submitted = first          # requests so far
        self.executed = first
        self.failing = 0

    def submit(self, m):
        f = m.enqueue(self.work, self.submitted)
        self.submitted = self.submitted + 1
        return f

    def work(self, i):
        self.S.check("executed once, in the order of submission", i == self.executed)
        self.executed = self.executed + 1
        if self.failing < 2:
            self.failing = self.failing + 1
            outcome = self.S.choice("outcome", "value", "error", "other error")
            if outcome == "error":
                raise ValueError("failed")
            if outcome == "other error":
                raise OSError("failed")
        return i


class Pending:
    """a queue with any number of requests in it"""

    def __init__(self, S, requests, older):
        self.S, self.requests, self.older, self.first = S, requests, older, requests.executed
        self.newer = ()

    def has_older(self):
        if self.older > 0:
            return True
        return False

    def take(self):
        if self.has_older():
            self.older = self.older - 1
            self.first = self.first + 1
            return CacheManager().enqueue(self.requests.work, self.first - 1)
        f = self.newer[0]
        self.newer = self.newer[1:]
        return f

    def take_last(self):
        if self.newer:
            f = self.newer[-1]
            self.newer = self.newer[:-1]
            return f
        self.older = self.older - 1
        return CacheManager().enqueue(self.requests.work, self.first + self.older)

    def append(self, f):
        self.newer = self.newer + (f,)

    def pop(self, i=-1):
        if not self.has_older() and not self.newer:
            raise IndexError("pop from an empty queue")
        if i == 0:
            return self.take()
        if i == -1:
            return self.take_last()
        raise NotImplementedError

    def popleft(self):
        return self.pop(0)

    def __len__(self):
        if self.has_older():
            return self.older + len(self.newer)
        return len(self.newer)

    def __bool__(self):
        return self.has_older() or len(self.newer) > 0


class State:
    """of a harness"""

    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


def manager(S, conds):
    """a new manager whose thread does not run by itself"""
    def condition(lock=None):
        c = Cond(S)
        if not conds.closed:
            conds.all = conds.all + (c,)
        return c
    S.patch(threading, "Condition", condition)
    return CacheManager()


def queue_of(m):
    return [k for k, v in vars(m).items() if not isinstance(v, (str, tuple, dict, set)) and hasattr(v, "append") and hasattr(v, "pop") and len(v) == 0]


@harness(timeout=150, forever=True)
def execution(S):
    """the manager's thread, with any number of requests pending, others being submitted whenever the lock is free"""
    conds = State(all=(), closed=False)
    m = manager(S, conds)
    r = Requests(S, S.int("executed before", 0, 10**6))
    older = S.int("pending", 0, gen=lambda r: r.choice([0, 1, 2, 3, 5, 300]))
    names = queue_of(m)
    if len(names) == 1:
        p = Pending(S, r, older)
        setattr(m, names[0], p)
        r.submitted = r.submitted + older
    state = State(entered=0, new=0)

    def others(where):
        if where == "wait":
            S.check("no waiting while requests are pending", r.executed == r.submitted)
            what = "request"
        else:
            state.entered = state.entered + 1
            if state.entered > 3:
                raise Stop()
            what = S.choice("before", "nothing", "request") if state.new < 2 else "nothing"
        if what == "request":
            state.new = state.new + 1
            r.submit(m)
            S.check("a waiting thread is told of a request", any_told(conds))
    conds.closed = True
    for c in conds.all:
        c.others = others
    try:
        m.run()
    except Stop:
        pass
    S.check("something is executed each time", r.executed >= 0)


def any_told(conds):
    for c in conds.all:
        if c.told:
            return True
    return False


class Failure(Exception):
    pass


@harness(timeout=150)
def answer(S):
    """the submitter receives the result of its request, or its exception, once the request is executed"""
    conds = State(all=(), closed=False)
    m = manager(S, conds)
    x, y, value = S.token("x"), S.token("y"), S.choice("value", "token", None, 0, False, ())
    if value == "token":
        value = S.token("value")
    error = S.choice("error", None, ValueError("a"), KeyError("b"), OSError(2, "c"), Failure("d"), NotImplementedError())
    calls = []

    def work(*args, **kwargs):
        calls.append((args, kwargs))
        if error is not None:
            raise error
        return value
    f = m.enqueue(work, x, key=y)
    S.check("submitting is not executing", not calls)
    state = State(done=False)

    def others(where):
        if state.done:
            S.check("no waiting for an answer that is there", where == "enter")
            return
        if where == "enter":
            if S.choice("meanwhile", "nothing", "executed") == "nothing":
                return
        state.done = True
        for c in conds.all:
            c.told = False
        f.execute()
        if where == "wait":
            S.check("a waiting submitter is told", any_told(conds))
    conds.closed = True
    for c in conds.all:
        c.others = others
    for i in range(2):
        got, raised = None, None
        try:
            got = f.result()
        except Exception as e:
            raised = e
        S.check("answered when executed", len(calls) == 1)
        S.check("its own exception", raised is error)
        if error is None:
            S.check("its own result", got is value)
    S.check("with its own arguments", calls[0][0] == (x,) and calls[0][1] == {"key": y})


class APolicy:
    def __init__(self, managed, tag):
        self._managed, self.tag = managed, tag

    def managed(self):
        return self._managed

    def outdated(self):
        return False

    def update(self):
        return True


@harness(timeout=150)
def requests(S):
    """each operation of the cache is one request of the manager with its arguments, answered with its result"""
    submitted = []
    managed = S.choice("managed", True, False)
    S.patch(caching.CachePolicy, "from_config", lambda: APolicy(managed, S.token("policy")))
    crowded = S.choice("before", "idle", "requests pending") == "requests pending"

    def start(self):
        if crowded:
            for name in queue_of(self):
                getattr(self, name).append(caching.Future(S.token, ("other",), {}))
    S.patch(CacheManager, "start", start)

    def enqueue(self, func, *args, **kwargs):
        submitted.append(func)
        f = caching.Future(func, args, kwargs)
        f.execute()
        return f
    S.patch(CacheManager, "enqueue", enqueue)
    S.patch(CacheManager, "_config_changed", lambda self, policy: None)
    error = S.choice("error", None, ValueError("a"), Failure("d"))
    calls = []
    value, x, y = S.token("value"), S.token("x"), S.token("y")

    def work(self, *args, **kwargs):
        calls.append((args, kwargs))
        if error is not None:
            raise error
        return value
    operation, method, answered = S.choice("operation", *OPERATIONS)
    S.patch(CacheManager, method, work)
    S.patch(caching.Cache, "_created", False)
    c = caching.Cache()
    for i in range(2):
        before = len(submitted)
        if managed and i == 0:
            before = before + 1         # the manager is told of the policy first
        got, raised = None, None
        try:
            got = getattr(c, operation)(x, key=y)
        except Exception as e:
            raised = e
        if managed:
            S.check("one request each", len(calls) == i + 1 and len(submitted) == before + 1)
            S.check("with its arguments", calls[i][0] == (x,) and calls[i][1] == {"key": y})
            if answered:
                S.check("its own exception", raised is error)
                S.check("its own result", got is (value if error is None else None))
        else:
            S.check("nothing is asked of an unmanaged cache", not submitted and got is None and raised is None)


OPERATIONS = (("size", "_cache_size", True), ("entries", "_cache_entries", True), ("purge", "_purge_cache", True), ("check_size", "_check_cache_size", False),
              ("summary_dump_database", "_summary_dump_cache_database", True), ("_dump_database", "_dump_cache_database", True),
              ("_register_cache_file", "_register_cache_file", True), ("_update_entry", "_update_entry", True), ("_decache_file", "_decache_file", True))


@harness(symbolic=False, samples=40)
def threads(S):
    """run time: threads submitting requests to a running manager"""
    import random
    import time
    m = CacheManager()
    m.start()
    order, got, submitted = [], {}, []
    r = random.Random(S.int("seed", 0, 10**6))
    lock = threading.Lock()

    def work(k, i):
        order.append((k, i))
        if r.random() < 0.3:
            time.sleep(r.random() * 0.0005)
        if i % 3 == 1:
            raise ValueError((k, i))
        return (k, i)

    def submitter(k):
        waiting = []
        for i in range(8):
            with lock:
                f = m.enqueue(work, k, i)
                submitted.append((k, i))
            waiting.append((i, f))
            if r.random() < 0.5:
                collect(k, waiting)
        collect(k, waiting)

    def collect(k, waiting):
        while waiting:
            i, f = waiting.pop()
            try:
                got[k, i] = f.result()
            except ValueError as e:
                got[k, i] = e.args
    ts = [threading.Thread(target=submitter, args=(k,), daemon=True) for k in range(S.int("threads", 1, 4))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(10)
    S.check("every request is answered", not any(t.is_alive() for t in ts))
    S.check("every request is executed once, in order of submission", order == submitted)
    for (k, i), v in got.items():
        S.check("with its own answer", v == ((k, i) if i % 3 != 1 else ((k, i),)))

    def end():
        raise SystemExit
    m.enqueue(end)
    m.join(5)
