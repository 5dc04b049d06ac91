"""Contract of sqlite3 for the statements the cache uses: a database is a list of rows (rowid order) of values that may be
symbolic. Statements are parsed from the text given to execute(); what is not in the fragment is refused (undecided).
Assumed of SQLite: three-valued logic; a select without ORDER BY walks the rows in rowid order and sees deletions made on
the way; one with ORDER BY is evaluated at once; the text of a datetime orders like the datetime; a connection used as a
context manager commits, or rolls back on an exception; a primary key is unique."""
import datetime, re, sqlite3
import z3
from .core import *
from . import models, strs, ops, fsm
from .models import B, builtin

TOK = re.compile(r"\s*(?:(--[^\n]*\n)|('(?:[^']|'')*')|(\d+\.\d+|\d+)|([A-Za-z_][A-Za-z_0-9]*|\"[^\"]*\")|(<=|>=|<>|!=|==|\|\||[-(),.*=<>?+/;:%]))")
AGG = {"min", "max", "sum", "count", "total", "avg"}
KEY = {"select", "from", "where", "order", "by", "and", "or", "not", "is", "null", "like", "in", "between", "asc", "desc", "limit",
       "insert", "into", "values", "update", "set", "delete", "create", "table", "if", "exists", "replace", "ignore", "primary", "key",
       "default", "group", "having", "join", "as", "distinct", "offset", "on", "returning", "escape", "begin", "commit", "nulls"}


def tokens(sql):
    out, i = [], 0
    sql = sql.rstrip()
    while i < len(sql):
        m = TOK.match(sql, i)
        if m is None:
            raise Unsupported(f"SQL near {sql[i:i + 20]!r}")
        i = m.end()
        c, s, n, w, o = m.groups()
        if c:
            continue
        if s:
            out.append(("str", s[1:-1].replace("''", "'")))
        elif n:
            out.append(("num", float(n) if "." in n else int(n)))
        elif w:
            if w[0] == '"':
                out.append(("id", w[1:-1].lower()))
            else:
                out.append(("kw" if w.lower() in KEY else "id", w.lower()))
        else:
            out.append(("op", o))
    return out


class Parser:
    def __init__(self, sql):
        self.t, self.i, self.np = tokens(sql), 0, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def is_(self, *vals):
        for k, v in enumerate(vals):
            if self.peek(k)[1] != v or self.peek(k)[0] in ("str",):
                return False
        return True

    def eat(self, *vals):
        if self.is_(*vals):
            self.i += len(vals)
            return True
        return False

    def need(self, *vals):
        if not self.eat(*vals):
            raise Unsupported(f"SQL: expected {' '.join(vals)} at {self.peek()!r}")

    def name(self):
        k, v = self.next()
        if k != "id":
            raise Unsupported(f"SQL name {v!r}")
        return v

    # -------------------------------------------------------------- expressions
    def expr(self):
        e = self.and_()
        while self.eat("or"):
            e = ("or", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.eat("and"):
            e = ("and", e, self.not_())
        return e

    def not_(self):
        if self.eat("not"):
            return ("not", self.not_())
        return self.cmp()

    def cmp(self):
        e = self.sum()
        while True:
            if self.eat("is", "not", "null"):
                e = ("not", ("isnull", e))
            elif self.eat("is", "null"):
                e = ("isnull", e)
            elif self.eat("is", "not"):
                e = ("not", ("is", e, self.sum()))
            elif self.eat("is"):
                e = ("is", e, self.sum())
            elif self.eat("not", "like"):
                e = ("not", ("like", e, self.sum()))
            elif self.eat("like"):
                e = ("like", e, self.sum())
            elif self.eat("not", "in"):
                e = ("not", self.in_(e))
            elif self.eat("in"):
                e = self.in_(e)
            elif self.eat("between"):
                a = self.sum()
                self.need("and")
                e = ("and", ("cmp", ">=", e, a), ("cmp", "<=", e, self.sum()))
            elif self.peek()[0] == "op" and self.peek()[1] in ("=", "==", "!=", "<>", "<", "<=", ">", ">="):
                o = self.next()[1]
                e = ("cmp", {"==": "=", "<>": "!="}.get(o, o), e, self.sum())
            else:
                return e

    def in_(self, e):
        self.need("(")
        r = ("lit", 0)
        while not self.eat(")"):
            r = ("or", r, ("cmp", "=", e, self.expr()))
            self.eat(",")
        return r

    def sum(self):
        e = self.prod()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
            o = self.next()[1]
            e = ("arith", o, e, self.prod())
        return e

    def prod(self):
        e = self.atom()
        while self.peek()[0] == "op" and self.peek()[1] == "*":
            self.next()
            e = ("arith", "*", e, self.atom())
        return e

    def atom(self):
        k, v = self.next()
        if k in ("str", "num"):
            return ("lit", v)
        if (k, v) == ("kw", "null"):
            return ("lit", None)
        if (k, v) == ("op", "?"):
            self.np += 1
            return ("param", self.np - 1)
        if (k, v) == ("op", ":"):
            return ("param", self.name())
        if (k, v) == ("op", "("):
            if self.is_("select"):
                raise Unsupported("SQL subquery")
            e = self.expr()
            self.need(")")
            return e
        if (k, v) == ("op", "-"):
            return ("arith", "-", ("lit", 0), self.atom())
        if k == "id":
            if self.eat("("):
                if self.eat("*"):
                    self.need(")")
                    return ("fn", v, None)
                a = []
                while not self.eat(")"):
                    a.append(self.expr())
                    self.eat(",")
                return ("fn", v, a)
            if self.eat("."):
                v = self.name()
            return ("col", v)
        raise Unsupported(f"SQL expression at {v!r}")

    # -------------------------------------------------------------- statements
    def statement(self):
        s = self.one()
        self.eat(";")
        if self.peek()[0] != "end":
            raise Unsupported(f"SQL: {self.peek()!r} not expected")
        return s

    def one(self):
        if self.eat("create", "table"):
            cond = self.eat("if", "not", "exists")
            t = self.name()
            self.need("(")
            cols, defaults, pk, notnull, depth = [], {}, None, set(), 0
            while True:
                c = self.name()
                cols.append(c)
                while True:
                    if self.is_(",") or self.is_(")"):
                        break
                    if self.eat("primary", "key"):
                        pk = c
                    elif self.eat("not", "null"):
                        notnull.add(c)
                    elif self.eat("default"):
                        defaults[c] = self.next()[1]
                    elif self.peek()[0] == "id":
                        self.next()
                    else:
                        raise Unsupported("SQL column definition")
                if self.eat(")"):
                    break
                self.need(",")
            return ("create", t, cols, defaults, pk, notnull, cond)
        if self.eat("select"):
            outs = []
            if self.is_("distinct"):
                raise Unsupported("SQL distinct")
            while True:
                if self.eat("*"):
                    outs.append(("*", None))
                else:
                    e = self.expr()
                    nm = None
                    if self.eat("as"):
                        nm = self.name()
                    outs.append((e, nm))
                if not self.eat(","):
                    break
            t = None
            if self.eat("from"):
                t = self.name()
            where = self.expr() if self.eat("where") else None
            order = []
            if self.eat("order", "by"):
                while True:
                    e = self.expr()
                    desc = self.eat("desc") or (self.eat("asc") and False)
                    order.append((e, bool(desc)))
                    if not self.eat(","):
                        break
            limit = self.expr() if self.eat("limit") else None
            return ("select", outs, t, where, order, limit)
        if self.is_("insert") or self.is_("replace"):
            mode = "abort"
            if self.eat("replace"):
                mode = "replace"
            else:
                self.need("insert")
                if self.eat("or"):
                    mode = self.next()[1]
                    if mode not in ("replace", "ignore"):
                        raise Unsupported("SQL insert or " + str(mode))
            self.need("into")
            t = self.name()
            cols = None
            if self.eat("("):
                cols = []
                while not self.eat(")"):
                    cols.append(self.name())
                    self.eat(",")
            self.need("values")
            rows = []
            while True:
                self.need("(")
                r = []
                while not self.eat(")"):
                    r.append(self.expr())
                    self.eat(",")
                rows.append(r)
                if not self.eat(","):
                    break
            return ("insert", t, cols, rows, mode)
        if self.eat("update"):
            t = self.name()
            self.need("set")
            sets = []
            while True:
                c = self.name()
                self.need("=")
                sets.append((c, self.expr()))
                if not self.eat(","):
                    break
            return ("update", t, sets, self.expr() if self.eat("where") else None)
        if self.eat("delete"):
            self.need("from")
            t = self.name()
            return ("delete", t, self.expr() if self.eat("where") else None)
        if self.eat("begin"):
            return ("begin",)
        if self.eat("commit"):
            return ("commit",)
        raise Unsupported(f"SQL statement {self.peek()[1]!r}")


PARSED = {}


def parse(sql):
    if sql not in PARSED:
        p = Parser(sql)
        PARSED[sql] = (p.statement(), p.np)
    return PARSED[sql]


# ------------------------------------------------------------------------------------------------- data
class Table:
    def __init__(self, cols, defaults, pk, notnull):
        self.cols, self.defaults, self.pk, self.notnull = cols, defaults, pk, notnull
        self.rows = []          # (rowid, {column: value})
        self.next = 1

    def copy(self):
        t = Table(self.cols, self.defaults, self.pk, self.notnull)
        t.rows = [(i, dict(r)) for i, r in self.rows]
        t.next = self.next
        return t


class Database:
    def __init__(self):
        self.tables = {}


def cell(I, v):
    """value of a parameter as it is stored"""
    if v is None or isinstance(v, (int, float, str)) and not isinstance(v, bool):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, models.NowModel):
        return Sym("real", v.t, meta={"time": True})
    if isinstance(v, Sym) and v.kind in ("str", "int", "real", "opaque"):
        return v
    if isinstance(v, Sym) and v.kind == "bool":
        return Sym("int", z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, (PList, PDict, PSet, tuple, Obj)):
        I.raise_(sqlite3.ProgrammingError, "Error binding parameter: type is not supported")
    raise Unsupported(f"SQL value {type(v).__name__}")


def kind(v):
    if isinstance(v, str) or (isinstance(v, Sym) and v.kind in ("str", "opaque")):
        return "text"
    if isinstance(v, Sym) and v.kind == "real" and (v.meta or {}).get("time"):
        return "time"
    return "num"


class Row(ModelObj):
    pytypes = (sqlite3.Row,)

    def __init__(self, names, values):
        self.names, self.values = names, values

    def m_keys(self, I):
        return I.plist(list(self.names))

    def as_pairs(self, I):
        return list(zip(self.names, self.values))

    def getitem(self, I, k):
        if isinstance(k, str):
            for n, v in zip(self.names, self.values):
                if n.lower() == k.lower():
                    return v
            I.raise_(IndexError, "No item with that key")
        if isinstance(k, int):
            if not -len(self.values) <= k < len(self.values):
                I.raise_(IndexError, "Index out of range")
            return self.values[k]
        raise Unsupported("index of a row")

    def to_list(self, I):
        return list(self.values)

    def length(self, I):
        return len(self.values)

    def contains(self, I, x):
        return I.contains(tuple(self.values), x)


class Cursor(ModelObj):
    pytypes = (sqlite3.Cursor,)

    def __init__(self, conn, gen=None, rowcount=-1):
        self.conn, self.gen, self.rowcount = conn, gen, rowcount

    def fetch(self, I):
        if self.gen is None:
            return None
        for r in self.gen:
            return r
        self.gen = None
        return None

    def m_fetchone(self, I):
        return self.fetch(I)

    def m_fetchall(self, I):
        return I.plist(self.to_list(I))

    def m_fetchmany(self, I, n=1):
        r = []
        while len(r) < n:
            x = self.fetch(I)
            if x is None:
                break
            r.append(x)
        return I.plist(r)

    def m___next__(self, I):
        r = self.fetch(I)
        if r is None:
            I.raise_(StopIteration)
        return r

    def to_list(self, I):
        r = []
        while True:
            x = self.fetch(I)
            if x is None:
                return r
            r.append(x)

    def iterate(self, I, cb):
        while True:
            x = self.fetch(I)
            if x is None:
                return
            cb(x)

    def m_execute(self, I, sql, params=()):
        c = self.conn.m_execute(I, sql, params)
        self.gen, self.rowcount = c.gen, c.rowcount
        return self

    def m_close(self, I):
        self.gen = None

    def f_rowcount(self, I):
        return self.rowcount


class Connection(ModelObj):
    pytypes = (sqlite3.Connection,)

    def __init__(self, I, path):
        self.path = path
        self.db = I.run.ghost.setdefault("sql", {}).setdefault(path, Database())
        self.saved = None           # state to return to on rollback
        self.as_rows = False
        self.changes = 0
        self.closed = False

    def setattr(self, I, name, v):
        if name == "row_factory":
            if v is sqlite3.Row or v is None:
                self.as_rows = v is not None
                return
            raise Unsupported("row_factory")
        raise Unsupported(f"attribute {name} of a connection")

    def enter(self, I):
        if self.closed:
            I.raise_(sqlite3.ProgrammingError, "Cannot operate on a closed database.")
        return self

    def exit(self, I, e):
        if e is None:
            self.saved = None
        else:
            self.m_rollback(I)
        return False

    def m_commit(self, I):
        self.saved = None

    def m_rollback(self, I):
        if self.saved is not None:
            self.db.tables = self.saved
            self.saved = None

    def m_close(self, I):
        self.m_rollback(I)
        self.closed = True

    def m_cursor(self, I):
        return Cursor(self)

    def begin(self):
        if self.saved is None:
            self.saved = {n: t.copy() for n, t in self.db.tables.items()}

    def table(self, I, n):
        t = self.db.tables.get(n)
        if t is None:
            I.raise_(sqlite3.OperationalError, f"no such table: {n}")
        return t

    def m_executemany(self, I, sql, seq):
        n = 0
        for p in I.to_list(seq):
            c = self.m_execute(I, sql, p)
            n += c.rowcount
        return Cursor(self, None, n)

    def m_execute(self, I, sql, params=()):
        if self.closed:
            I.raise_(sqlite3.ProgrammingError, "Cannot operate on a closed database.")
        if not isinstance(sql, str):
            raise Unsupported("symbolic SQL text")
        st, np = parse(sql)
        if isinstance(params, PDict):
            ps = dict(params.d)
        else:
            ps = [cell(I, v) for v in I.to_list(params)]
            if len(ps) != np:
                I.raise_(sqlite3.ProgrammingError, f"Incorrect number of bindings supplied. The current statement uses {np}, and there are {len(ps)} supplied.")
        if isinstance(ps, dict):
            ps = {k: cell(I, v) for k, v in ps.items()}
        return getattr(self, "s_" + st[0])(I, st, ps)

    # -------------------------------------------------------------- statements
    def s_begin(self, I, st, ps):
        self.begin()
        return Cursor(self)

    def s_commit(self, I, st, ps):
        self.saved = None
        return Cursor(self)

    def s_create(self, I, st, ps):
        _, t, cols, defaults, pk, notnull, cond = st
        if t in self.db.tables:
            if not cond:
                I.raise_(sqlite3.OperationalError, f"table {t} already exists")
        else:
            self.db.tables[t] = Table(cols, defaults, pk, notnull)
        return Cursor(self)

    def s_insert(self, I, st, ps):
        _, tn, cols, rows, mode = st
        t = self.table(I, tn)
        self.begin()
        self.changes = 0
        for r in rows:
            names = cols or t.cols
            if len(names) != len(r):
                I.raise_(sqlite3.OperationalError, f"{len(r)} values for {len(names)} columns")
            row = {c: t.defaults.get(c) for c in t.cols}
            for c, e in zip(names, r):
                if c not in row:
                    I.raise_(sqlite3.OperationalError, f"table {tn} has no column named {c}")
                row[c] = self.value(I, e, None, ps)
            for c in t.notnull:
                if row[c] is None:
                    I.raise_(sqlite3.IntegrityError, f"NOT NULL constraint failed: {tn}.{c}")
            if t.pk is not None and row[t.pk] is not None:
                old = [i for i, x in t.rows if I.decide(self.compare(I, "=", x[t.pk], row[t.pk]))]
                if old and mode == "abort":
                    I.raise_(sqlite3.IntegrityError, f"UNIQUE constraint failed: {tn}.{t.pk}")
                if old and mode == "ignore":
                    continue
                t.rows = [(i, x) for i, x in t.rows if i not in old]
            # the rowid is one more than the largest in use
            t.rows.append((max([i for i, _ in t.rows], default=0) + 1, row))
            self.changes += 1
        return Cursor(self, None, self.changes)

    def s_update(self, I, st, ps):
        _, tn, sets, where = st
        t = self.table(I, tn)
        self.begin()
        self.changes = 0
        for i, row in t.rows:
            if self.holds(I, where, row, ps):
                new = {c: self.value(I, e, row, ps) for c, e in sets}
                for c in new:
                    if c not in row:
                        I.raise_(sqlite3.OperationalError, f"no such column: {c}")
                    if c == t.pk:
                        raise Unsupported("SQL update of the primary key")
                    if c in t.notnull and new[c] is None:
                        I.raise_(sqlite3.IntegrityError, f"NOT NULL constraint failed: {tn}.{c}")
                row.update(new)
                self.changes += 1
        return Cursor(self, None, self.changes)

    def s_delete(self, I, st, ps):
        _, tn, where = st
        t = self.table(I, tn)
        self.begin()
        gone = [i for i, row in t.rows if self.holds(I, where, row, ps)]
        t.rows = [(i, r) for i, r in t.rows if i not in gone]
        self.changes = len(gone)
        return Cursor(self, None, self.changes)

    def s_select(self, I, st, ps):
        _, outs, tn, where, order, limit = st
        if tn is None:
            if len(outs) == 1 and outs[0][0][0] == "fn" and outs[0][0][1] == "changes":
                return Cursor(self, iter([self.row(["changes()"], [self.changes])]))
            vals = [self.value(I, e, {}, ps) for e, _ in outs]
            return Cursor(self, iter([self.row([n or "?" for _, n in outs], vals)]))
        t = self.table(I, tn)
        if any(e != "*" and self.aggregate(e) for e, _ in outs):
            if order or limit:
                raise Unsupported("SQL aggregate with order")
            rows = [r for _, r in t.rows if self.holds(I, where, r, ps)]
            vals, names = [], []
            for e, n in outs:
                if not self.aggregate(e):
                    raise Unsupported("SQL aggregate with columns")
                names.append(n or e[1])
                vals.append(self.agg(I, e, rows, ps))
            return Cursor(self, iter([self.row(names, vals)]))
        lim = None
        if limit is not None:
            lim = self.value(I, limit, {}, ps)
            if not isinstance(lim, int):
                raise Unsupported("SQL symbolic limit")
        if not order:
            return Cursor(self, self.walk(I, outs, t, tn, where, ps, lim))
        rows = [r for _, r in t.rows if self.holds(I, where, r, ps)]
        done = []
        for r in rows:
            ks = [self.value(I, e, r, ps) for e, _ in order]
            p = len(done)
            while p > 0 and self.before(I, ks, done[p - 1][0], order):
                p -= 1
            done.insert(p, (ks, r))
        if lim is not None and lim >= 0:
            done = done[:lim]
        return Cursor(self, iter([self.out(I, outs, t, r, ps) for _, r in done]))

    def before(self, I, a, b, order):
        for x, y, (_, desc) in zip(a, b, order):
            if x is None and y is None:
                continue
            if x is None or y is None:
                return (x is None) != desc
            if I.decide(self.compare(I, ">" if desc else "<", x, y)):
                return True
            if not I.decide(self.compare(I, "=", x, y)):
                return False
        return False

    def walk(self, I, outs, t, tn, where, ps, lim):
        last, n = 0, 0
        while lim is None or lim < 0 or n < lim:
            t = self.table(I, tn)
            for i, r in sorted(t.rows, key=lambda x: x[0]):
                if i > last:
                    last = i
                    if self.holds(I, where, r, ps):
                        n += 1
                        yield self.out(I, outs, t, r, ps)
                        break
            else:
                return

    def out(self, I, outs, t, r, ps):
        names, vals = [], []
        for e, n in outs:
            if e == "*":
                names += t.cols
                vals += [r[c] for c in t.cols]
            else:
                names.append(n or (e[1] if e[0] == "col" else "?"))
                vals.append(self.value(I, e, r, ps))
        return self.row(names, vals)

    def row(self, names, vals):
        return Row(names, vals) if self.as_rows else tuple(vals)

    # -------------------------------------------------------------- expressions
    def aggregate(self, e):
        return e[0] == "fn" and e[1] in AGG and not (e[1] in ("min", "max") and e[2] is not None and len(e[2]) > 1)

    def agg(self, I, e, rows, ps):
        f, a = e[1], e[2]
        if a is None:
            return len(rows)
        vs = [self.value(I, a[0], r, ps) for r in rows]
        vs = [v for v in vs if v is not None]
        if f == "count":
            return len(vs)
        if not vs:
            return 0.0 if f == "total" else None
        r = vs[0]
        for v in vs[1:]:
            if f in ("sum", "total"):
                r = self.arith(I, "+", r, v)
            elif f in ("min", "max"):
                if I.decide(self.compare(I, "<" if f == "min" else ">", v, r)):
                    r = v
            else:
                raise Unsupported("SQL " + f)
        return r

    def compare(self, I, o, a, b):
        """truth of a comparison of values that are not NULL"""
        ka, kb = kind(a), kind(b)
        if ka != kb:
            if "time" in (ka, kb) and "text" in (ka, kb):
                raise Unsupported("SQL comparison of a time with a text")
            # numbers come before texts
            if o == "=":
                return False
            if o == "!=":
                return True
            return (o[0] == "<") == (ka == "num")
        if o == "=":
            return I.eq(a, b)
        if o == "!=":
            return neg(I.eq(a, b))
        import ast
        return ops.order(I, {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}[o](), a, b)

    def arith(self, I, o, a, b):
        import ast
        if a is None or b is None:
            return None
        if kind(a) != "num" or kind(b) != "num":
            raise Unsupported("SQL arithmetic on text")
        return ops.num(I, {"+": ast.Add, "-": ast.Sub, "*": ast.Mult}[o], a, b)

    def value(self, I, e, row, ps):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "param":
            return ps[e[1]]
        if k == "col":
            if row is None or e[1] not in row:
                I.raise_(sqlite3.OperationalError, f"no such column: {e[1]}")
            return row[e[1]]
        if k == "arith":
            return self.arith(I, e[1], self.value(I, e[2], row, ps), self.value(I, e[3], row, ps))
        if k == "fn":
            if e[1] in ("coalesce", "ifnull"):
                for x in e[2]:
                    v = self.value(I, x, row, ps)
                    if v is not None:
                        return v
                return None
            if e[1] == "changes" and not e[2]:
                return self.changes
            raise Unsupported("SQL function " + e[1])
        r = self.test(I, e, row, ps)
        return None if r is None else int(r)

    def holds(self, I, where, row, ps):
        return True if where is None else self.test(I, where, row, ps) is True

    def test(self, I, e, row, ps):
        """True, False or None (unknown); forks on what is symbolic"""
        k = e[0]
        if k == "or":
            a = self.test(I, e[1], row, ps)
            if a is True:
                return True
            b = self.test(I, e[2], row, ps)
            return True if b is True else None if a is None or b is None else False
        if k == "and":
            a = self.test(I, e[1], row, ps)
            if a is False:
                return False
            b = self.test(I, e[2], row, ps)
            return False if b is False else None if a is None or b is None else True
        if k == "not":
            a = self.test(I, e[1], row, ps)
            return None if a is None else not a
        if k == "isnull":
            return self.value(I, e[1], row, ps) is None
        if k == "is":
            a, b = self.value(I, e[1], row, ps), self.value(I, e[2], row, ps)
            if a is None or b is None:
                return a is b
            return bool(I.decide(self.compare(I, "=", a, b)))
        if k == "cmp":
            a, b = self.value(I, e[2], row, ps), self.value(I, e[3], row, ps)
            if a is None or b is None:
                return None
            return bool(I.decide(self.compare(I, e[1], a, b)))
        if k == "like":
            a, b = self.value(I, e[1], row, ps), self.value(I, e[2], row, ps)
            if a is None or b is None:
                return None
            return like(I, a, b)
        v = self.value(I, e, row, ps)
        if v is None:
            return None
        return bool(I.decide(self.compare(I, "!=", v, 0)))


def like(I, a, p):
    if isinstance(a, str) and isinstance(p, str):
        rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in p)
        return re.fullmatch(rx, a, re.I | re.S | re.A) is not None
    raise Unsupported("SQL LIKE of symbolic texts")


@builtin(sqlite3.connect)
def b_connect(I, a, k):
    p = fsm.fs(I).norm(I, a[0])
    if not isinstance(p, str):
        raise Unsupported("database of a symbolic path")
    f = fsm.fs(I)
    if f.find(I, p) is None:
        d = p.rsplit("/", 1)[0]
        if f.find(I, d) is None:
            I.raise_(sqlite3.OperationalError, "unable to open database file")
        n = fsm.Node("file", "")
        n.size = 4096
        f.put(I, p, n)
    return Connection(I, p)


# ------------------------------------------------------------------------------------------------- any register
class AnyConnection(Connection):
    """a table with any number of rows, none of which is known. A select gives a sequence of any length: the rows that satisfy
    its WHERE, each once, ordered by its ORDER BY. Facts about aggregates are instantiated on the rows that are named.
    Deletions and updates are recorded (later statements see the table as it was: nothing is assumed about what they leave)"""

    def __init__(self, I, make):
        self.make = make            # () -> dictionary of a row
        self.db = Database()
        self.as_rows = True
        self.closed, self.saved, self.changes = False, None, 0
        self.selects, self.aggs, self.named, self.deleted = [], [], [], []

    def fresh(self, I):
        d = I.call(self.make, [])
        r = {k: cell(I, v) for k, v in d.d.items()}
        self.name(I, r)
        return r

    def name(self, I, r):
        for a in self.aggs:
            self.fact(I, a, r)
        self.named.append(r)

    def fact(self, I, a, r):
        f, arg, where, ps, v = a
        if not self.holds(I, where, r, ps):
            return
        x = self.value(I, arg, r, ps)
        if x is None or f not in ("min", "max"):
            return
        if v is None or not I.decide(self.compare(I, "<=" if f == "min" else ">=", v, x)):
            from .core import PathEnd
            raise PathEnd()

    def s_create(self, I, st, ps):
        return Cursor(self)

    def s_insert(self, I, st, ps):
        raise Unsupported("insertion into a register of unbounded size")

    def s_update(self, I, st, ps):
        raise Unsupported("update of a register of unbounded size")

    def s_delete(self, I, st, ps):
        I.run.ghost["effects"] = I.run.ghost.get("effects", 0) + 1
        self.deleted.append((st[2], ps))
        return Cursor(self, None, -1)

    def s_select(self, I, st, ps):
        _, outs, tn, where, order, limit = st
        if tn is None or limit is not None:
            raise Unsupported("select on a register of unbounded size")
        if len(outs) == 1 and outs[0][0] != "*" and self.aggregate(outs[0][0]):
            e = outs[0][0]
            f, arg = e[1], (e[2] or [None])[0]
            for a in self.aggs:
                if a[:3] == (f, arg, where) and len(a[3]) == len(ps) and all(x is y for x, y in zip(a[3], ps)):
                    return Cursor(self, iter([self.row([f], [a[4]])]))
            if f in ("min", "max", "sum") and I.run.choose(2) == 0:
                v = None
            elif f in ("count", "sum"):
                v = Sym("int", I.run.fresh(z3.IntSort(), f))
                I.run.assume(v.t >= 0)
            elif f in ("min", "max") and arg[0] == "col":
                k = cell(I, I.call(self.make, []).d[arg[1]])       # of the kind of the column
                if k is None:
                    raise PathEnd()
                v = Sym(k.kind, I.run.fresh(k.t.sort(), f), meta=k.meta)
            else:
                raise Unsupported("SQL " + f)
            a = (f, arg, where, ps, v)
            self.aggs.append(a)
            for r in self.named:
                self.fact(I, a, r)
            return Cursor(self, iter([self.row([f], [v])]))
        s = Select(self, I, outs, where, order, ps)
        self.selects.append(s)
        return s


class Select(ModelObj):
    pytypes = (sqlite3.Cursor,)

    def __init__(self, conn, I, outs, where, order, ps):
        from . import seqm
        self.conn, self.outs, self.where, self.order, self.ps = conn, outs, where, order, ps
        n = I.run.fresh(z3.IntSort(), "rows")
        I.run.assume(n >= 0)
        self.at = []                # (index, keys) named

        def make(I_, i):
            r = conn.fresh(I_)
            if not conn.holds(I_, where, r, ps):
                raise PathEnd()
            ks = [conn.value(I_, e, r, ps) for e, _ in order]
            for j, other in self.at:
                # the rows come in order
                c = self.compare(I_, other, ks)
                I_.run.assume(z3.Implies(j < i, c))
                I_.run.assume(z3.Implies(i < j, self.compare(I_, ks, other)))
            self.at.append((i, ks))
            names = [c for e, nm in outs for c in (list(r) if e == "*" else [nm or (e[1] if e[0] == "col" else "?")])]
            vals = [c for e, nm in outs for c in (list(r.values()) if e == "*" else [conn.value(I_, e, r, ps)])]
            return Row(names, vals)
        self.seq = seqm.Seq(n, make, "rows")

    def compare(self, I, a, b):
        """a comes before b or they are equal"""
        r = z3.BoolVal(True)
        for x, y, (_, desc) in reversed(list(zip(a, b, self.order))):
            if x is None or y is None:
                raise Unsupported("SQL order of nulls")
            r = z3.Or(bool_term(self.conn.compare(I, ">" if desc else "<", x, y)), z3.And(bool_term(self.conn.compare(I, "=", x, y)), r))
        return r

    def iterate(self, I, cb):
        return self.seq.iterate(I, cb)

    def m_fetchall(self, I):
        return self.seq

    def to_list(self, I):
        raise Unsupported("rows of a register of unbounded size as a whole")


def install(SymS, NatS):
    def m_any_register(self, I, make):
        return AnyConnection(I, lambda: None) if make is None else AnyConnection(I, make)

    def m_selects(self, I, conn):
        """the selects (not the aggregates) executed so far"""
        return I.plist(conn.selects)

    def m_rows_of(self, I, select):
        return select.seq

    def m_any_row(self, I, conn):
        """any row of the register"""
        r = conn.fresh(I)
        return Row(list(r), list(r.values()))

    def m_takes(self, I, select, row):
        """the select gives this row"""
        return select.conn.holds(I, select.where, dict(zip(row.names, row.values)), select.ps)

    def m_deletes(self, I, conn, row):
        """the row has been deleted"""
        return any([conn.holds(I, w, dict(zip(row.names, row.values)), ps) for w, ps in conn.deleted])

    def m_in_order(self, I, label, select, column):
        """obligation: the rows come in the order of the column"""
        import ast
        run = I.run
        p, q = run.fresh(z3.IntSort(), "p"), run.fresh(z3.IntSort(), "q")
        run.assume(z3.And(0 <= p, p < q, q < select.seq.n))
        a, b = select.seq.elem(I, p).getitem(I, column), select.seq.elem(I, q).getitem(I, column)
        run.check(label, I.truth(ops.order(I, ast.LtE(), a, b)))

    def m_mark(self, I, row):
        row.marked = getattr(row, "marked", 0) + 1

    def m_marks(self, I, row):
        return getattr(row, "marked", 0)

    def m_time(self, I, name):
        """a point in time before this run, as the database has it"""
        t = I.run.fresh(z3.RealSort(), name)
        if I.run.ghost.get("clock") is not None:
            I.run.assume(t < 0)
        return Sym("real", t, meta={"time": True})

    for f in (m_in_order, m_any_register, m_selects, m_rows_of, m_any_row, m_takes, m_deletes, m_mark, m_marks, m_time):
        setattr(SymS, f.__name__, f)
