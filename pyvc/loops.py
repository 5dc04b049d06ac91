"""Loops with a symbolic condition: cut at the loop head with an inductive invariant.

The invariant is the conjunction of the candidates (template instances over the modified state) that hold at
entry and are preserved by the body: each is *proved* (Houdini), those that are not are dropped and the
exploration restarts.  Contract-supplied invariants (I.loop_invs) are obligations instead.
"""
import ast, re
import z3
from .core import *
from .interp import Poison, LoopInfo, MISSING


def consts_of(I, s, env):
    cs = set()
    for n in ast.walk(s):
        v = None
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
        elif isinstance(n, ast.Name) and n.id not in env.vars:
            try:
                x = I.load(n.id, env)
            except (PyExc, Unsupported):
                continue
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                v = x
        if v is not None and v != 0:
            cs.add(v)
    return sorted(cs, key=repr)


def frame_terms(I, s, env, targets):
    ts = [("0", 0)]
    names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
    for name in sorted(names):
        e = env
        while e is not None and name not in e.vars:
            e = e.parent
        if e is None or ("local", e.eid, name) in targets:
            continue
        v = e.vars[name]
        if is_num(v):
            ts.append((name, v))
    return ts


def read(I, tgt, holders):
    kind = tgt[0]
    h = holders[tgt]
    if kind == "local":
        return h.vars.get(tgt[2], MISSING)
    if kind == "field":
        return h.fields.get(tgt[2], MISSING)
    return h


def write(tgt, holders, v):
    h = holders[tgt]
    if tgt[0] == "local":
        h.vars[tgt[2]] = v
    elif tgt[0] == "field":
        h.fields[tgt[2]] = v


def kind_of(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "real"
    if isinstance(v, Sym):
        return v.kind
    return "other"


def join(a, b):
    if a is None or a == b:
        return b
    if {a, b} <= {"int", "real"}:
        return "real"
    return "other"


def cut_while(I, s, env):
    run = I.run
    key = (s.lineno, s.col_offset, env.fn.qual if env.fn else "", tuple(run.decisions))
    info = run.ex.loops.setdefault(key, LoopInfo())
    watermark = run.objn
    holders = {}
    # holders of the targets are found again on this run: they were allocated before the loop
    for tgt in info.writes:
        h = find_holder(I, tgt, env)
        if h is None:
            raise Unsupported("loop target lost")
        holders[tgt] = h
    entry = {t: read(I, t, holders) for t in info.writes}
    models = [t for t in info.writes if t[0] == "model"]
    saved = {t: holders[t].snapshot() for t in models}
    cands = candidates(I, s, env, info, holders, entry, saved)
    alive = []
    hints = run.ex.hints.get(key[:3], {}) if run.ex.use_hints else {}
    for name, goal, asm in cands:
        if name in info.dead:
            continue
        if hints.get(plain(name)) is False:
            info.dead.add(name)
            run.ex.hinted = True
            continue
        ok = True
        for g in goal("entry"):
            if not run.valid(g):
                ok = False
                break
        if ok:
            alive.append((name, goal, asm))
        else:
            info.dead.add(name)
    named = []
    for f in I.loop_invs:
        named.extend(f(I, env, s, entry, saved) or [])
    for name, goal in named:
        run.check(f"{name}: holds on entry to the loop", goal())
    # havoc
    for t, k in info.writes.items():
        if t[0] == "model":
            holders[t].havoc(I)
        elif k == "int":
            write(t, holders, Sym("int", run.fresh(z3.IntSort(), str(t[2]))))
        elif k == "real":
            write(t, holders, Sym("real", run.fresh(z3.RealSort(), str(t[2]))))
        elif k == "bool":
            write(t, holders, Sym("bool", run.fresh(z3.BoolSort(), str(t[2]))))
        elif t[0] in ("local", "field"):
            write(t, holders, Poison(f"{t[2]} is modified in a loop in a way the summary does not describe"))
        else:
            raise Unsupported(f"container modified in an unbounded loop ({t[0]})")
    for name, goal, asm in alive:
        for a in asm():
            run.assume(a)
    for name, goal in named:
        run.assume(goal())
    if not run.feasible():
        raise PathEnd()
    log = {}
    run.writelogs.append(log)
    popped = False
    try:
        c = I.truth(I.eval(s.test, env))
        measure = guard_measure(I, s, env)
        if run.branch(c):
            try:
                I.exec_block(s.body, env)
            except ContinueSig:
                pass
            except (BreakSig, ReturnSig, PyExc) as e:
                settle(I, info, log, watermark, holders, entry, key)
                run.writelogs.pop()
                popped = True
                if isinstance(e, BreakSig):
                    return
                raise
            settle(I, info, log, watermark, holders, entry, key)
            run.writelogs.pop()
            popped = True
            bad = False
            for name, goal, asm in alive:
                for g in goal("step"):
                    if not run.valid(g):
                        info.dead.add(name)
                        bad = True
                        break
            if bad:
                raise Restart(key[3])
            settled(run.ex, key, info, alive)
            for name, goal in named:
                run.check(f"{name}: preserved by the loop body", goal())
            if measure is not None:
                after = guard_measure(I, s, env)
                if after is not None:
                    dec = z3.Or(real_term(after) <= real_term(measure) - z3.Q(1, 1000000000), z3.BoolVal(False))
                    if run.valid(dec):
                        run.ex.results.append(Obligation("loop terminates: its guard measure decreases", "discharged"))
            raise PathEnd()
        settle(I, info, log, watermark, holders, entry, key)
        run.writelogs.pop()
        popped = True
    finally:
        if not popped and log in run.writelogs:
            run.writelogs.remove(log)
    I.exec_block(s.orelse, env)


def find_holder(I, tgt, env):
    e = env
    if tgt[0] == "local":
        while e is not None:
            if e.eid == tgt[1]:
                return e
            e = e.parent
        for h in I.run.ghost.get("envs", []):
            if h.eid == tgt[1]:
                return h
        return I.run.ghost.get(("holder", tgt))
    return I.run.ghost.get(("oid", tgt[1]))


def settle(I, info, log, watermark, holders, entry, key):
    changed = False
    for t, h in log.items():
        if t[1] is None or t[1] > watermark:
            continue
        v = read(I, t, {t: h})
        if t[0] == "model":
            k = "model"
        elif v is MISSING:
            k = "other"
        else:
            k = kind_of(v)
            ev = entry.get(t)
            if ev is None:
                pass
        old = info.writes.get(t)
        if t[0] in ("local", "field"):
            e = entry.get(t, None)
            if t in entry and e is not MISSING:
                k = join(kind_of(e), k)
        new = join(old, k) if old is not None else k
        if new != old:
            info.writes[t] = new
            changed = True
    if changed:
        raise Restart(key[3])


def plain(name):
    return re.sub(r"(\('(?:local|field|model)'), \d+", r"\1", name)


def settled(ex, key, info, alive):
    """what was learned about this loop on one path is tried first on others"""
    h = ex.hints.setdefault(key[:3], {})
    for n in info.dead:
        h.setdefault(plain(n), False)
    for n, _, _ in alive:
        h[plain(n)] = True


def guard_terms(I, s, env):
    out = []
    for n in ast.walk(s.test):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for x in (n.left, n.comparators[0]):
                if any(isinstance(y, ast.Call) for y in ast.walk(x)):
                    continue
                try:
                    v = I.eval(x, env)
                except (Unsupported, PyExc):
                    continue
                if is_num(v):
                    out.append(v)
    return out


def guard_measure(I, s, env):
    t = s.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        try:
            a = I.eval(t.left, env)
            b = I.eval(t.comparators[0], env)
        except (Unsupported, PyExc):
            return None
        if is_num(a) and is_num(b):
            from . import ops
            if isinstance(t.ops[0], (ast.Lt, ast.LtE)):
                return ops.num(I, ast.Sub, b, a)
            return ops.num(I, ast.Sub, a, b)
    return None


def candidates(I, s, env, info, holders, entry, saved):
    """list of (name, goal(stage)->[terms], assume()->[terms])"""
    out = []
    run = I.run
    C = consts_of(I, s, env)
    T = frame_terms(I, s, env, info.writes)
    nums = [(t, k) for t, k in info.writes.items() if k in ("int", "real") and t[0] in ("local", "field") and is_num(entry.get(t))]

    def cur(t):
        return read(I, t, holders)

    def add(name, f):
        out.append((name, lambda stage: [f()], lambda: [f()]))

    for t, k in nums:
        x0 = entry[t]
        n = str(t)
        add(f"{n}==entry", lambda t=t, x0=x0: real_term(cur(t)) == real_term(x0))
        add(f"{n}>=entry", lambda t=t, x0=x0: real_term(cur(t)) >= real_term(x0))
        add(f"{n}<=entry", lambda t=t, x0=x0: real_term(cur(t)) <= real_term(x0))
        for c in C:
            ghost = {}

            def goal(stage, t=t, x0=x0, c=c, ghost=ghost):
                d = real_term(cur(t)) - real_term(x0)
                if stage == "entry":
                    return [z3.BoolVal(True)]
                g = z3.ToReal(ghost["k"])
                return [z3.Or(*[d == rat(c) * (g + j) for j in (-2, -1, 0, 1, 2)])]

            def asm(t=t, x0=x0, c=c, ghost=ghost):
                ghost["k"] = run.fresh(z3.IntSort(), "k")
                return [real_term(cur(t)) - real_term(x0) == rat(c) * z3.ToReal(ghost["k"])]
            out.append((f"{n} stride {c}", goal, asm))
        for tn, tv in T:
            offs = [0] + [c for c in C] + [-c for c in C]
            for c in offs:
                add(f"{n}>={tn}+{c}", lambda t=t, tv=tv, c=c: real_term(cur(t)) >= real_term(tv) + rat(c))
                add(f"{n}<{tn}+{c}", lambda t=t, tv=tv, c=c: real_term(cur(t)) < real_term(tv) + rat(c))
                add(f"{n}<={tn}+{c}", lambda t=t, tv=tv, c=c: real_term(cur(t)) <= real_term(tv) + rat(c))
    G = guard_terms(I, s, env)
    for i, (t, k) in enumerate(nums):
        for u, k2 in nums[i + 1:]:
            add(f"{t}-{u}", lambda t=t, u=u: real_term(cur(t)) - real_term(entry[t]) == real_term(cur(u)) - real_term(entry[u]))
            add(f"{t}+{u}", lambda t=t, u=u: real_term(cur(t)) - real_term(entry[t]) == real_term(entry[u]) - real_term(cur(u)))
    for t in info.writes:
        if t[0] == "model":
            out.extend(holders[t].loop_candidates(I, saved[t], [(u, lambda u=u: cur(u)) for u, _ in nums], G))
    return out
