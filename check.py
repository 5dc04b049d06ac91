#!/opt/venv/bin/python
"""Decide one property:  check.py C05 [--tier quick|thorough] [--seed N] | --replay FILE

Interprets the current source under $PYVC_REPO (default /repo), generates the obligations of the property's
contracts and discharges them; refutations are replayed on the real code; the contracts are also evaluated at run
time on seeded inputs (the bounded stand-in for whatever the verifier leaves undecided)."""
import argparse, itertools, json, multiprocessing, os, re, resource, shutil, sys, tempfile, time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.realpath(__file__))
REPO = os.path.realpath(os.environ.get("PYVC_REPO", "/repo"))


def isolate():
    d = tempfile.mkdtemp(prefix="pyvc-")
    for k in ("HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "TMPDIR", "ECKIT_GEO_CACHE_PATH"):
        p = os.path.join(d, k.lower())
        os.makedirs(p, exist_ok=True)
        os.environ[k] = p
    tempfile.tempdir = os.environ["TMPDIR"]
    for k in list(os.environ):
        if k.startswith("EARTHKIT_"):
            del os.environ[k]
    return d


def load(pid):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(REPO, "src"))
    os.environ["PYVC_REPO"] = REPO
    import pyvc  # noqa: F401
    import importlib
    import logging
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(6000)
    return importlib.import_module("specs." + pid.lower())


def work(job):
    pid, name, seed, tier, fixed = job
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from pyvc import harness
    mod = sys.modules["specs." + pid.lower()]
    h = [x for x in mod.HARNESSES if x.name == name][0]
    try:
        return harness.verify(h, seed, tier, fixed)
    except Exception as e:
        import traceback
        return {"harness": name, "obligations": {}, "undecided": [f"verifier error {e!r} {traceback.format_exc(limit=-4)}"],
                "violations": [], "native": {"runs": 0, "ok": 0, "checks": 0, "distinct": 0, "samples": [], "errors": []}, "functions": [], "models": [], "wall_s": 0}


def merge(results):
    """the shards of one harness become one result"""
    out = {}
    for r in results:
        m = out.get(r["harness"])
        if m is None:
            out[r["harness"]] = r
            continue
        m["obligations"] = m["obligations"] or {}
        for l, c in (r["obligations"] or {}).items():
            t = m["obligations"].setdefault(l, {"discharged": 0, "refuted": 0, "undecided": 0, "backends": {}})
            for k in ("discharged", "refuted", "undecided"):
                t[k] += c[k]
            for b, n in c["backends"].items():
                t["backends"][b] = t["backends"].get(b, 0) + n
        m["undecided"] = sorted(set(m["undecided"]) | set(r["undecided"]))
        m["violations"] = m["violations"] + r["violations"]
        for k in ("functions", "models"):
            m[k] = sorted(set(m[k]) | set(r[k]))
        for k in ("paths", "solver_s", "queries"):
            m[k] = m.get(k, 0) + r.get(k, 0)
        m["reachable"] = m.get("reachable") or r.get("reachable")
        m["wall_s"] = max(m["wall_s"], r["wall_s"])
        if r["native"].get("runs"):
            a, b = m["native"], r["native"]
            m["native"] = b if not a.get("runs") else {k: (a[k] + b[k]) for k in a}
    return list(out.values())


def findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    fs = json.load(open(p)) if os.path.exists(p) else []
    return [f for f in fs if f["property"] == pid and f["kind"] == "finding"]


def known(v, fs):
    for f in fs:
        if f["harness"] == v["harness"] and (f.get("label") is None or f["label"] == v["label"] or (v.get("replay") or {}).get("label") == f["label"]) \
                and all(v["choices"].get(k) == x for k, x in f.get("choices", {}).items()):
            return f
    return None


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def replay_file(path):
    r = json.load(open(path))
    isolate()
    mod = load(r["property"])
    from pyvc import harness
    import random
    h = [x for x in mod.HARNESSES if x.name == r["harness"]][0]
    st, lab, det, S = harness.native_run(h, random.Random(0), r["inputs"], r["choices"])
    print(st, lab, det)
    return 1 if st == "fail" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    pid = a.property.upper()
    t0 = time.time()
    scratch = isolate()
    try:
        return run(pid, a, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, a, t0):
    mod = load(pid)
    jobs = []
    for h in mod.HARNESSES:
        if a.only and h.name not in a.only.split(","):
            continue
        sp = h.opts.get("split") or {}
        for combo in itertools.product(*[range(n) for n in sp.values()]):
            jobs.append((pid, h.name, a.seed, a.tier, dict(zip(sp, combo))))
    jobs.sort(key=lambda j: -next(h.opts.get("timeout", 40) for h in mod.HARNESSES if h.name == j[1]))
    ctx = multiprocessing.get_context("fork")
    results = []
    limit = 800 if a.tier == "quick" else 3 * 3600
    with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        hs = [(j, pool.apply_async(work, (j,))) for j in jobs]
        for j, r in hs:
            try:
                results.append(r.get(timeout=max(1, limit - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                results.append({"harness": j[1], "obligations": {}, "undecided": ["time limit"], "violations": [],
                                "native": {"runs": 0, "ok": 0, "checks": 0, "distinct": 0, "samples": [], "errors": []}, "functions": [], "models": [], "wall_s": 0})
        pool.terminate()
    results = merge(results)
    fs = findings(pid)
    viol, seen_findings, unconfirmed = [], {}, []
    for r in results:
        for v in r["violations"]:
            f = known(v, fs)
            if f is not None and (v["confirmed"] or f.get("unconfirmed")):
                seen_findings[f["what"]] = f
                continue
            if v["confirmed"]:
                viol.append(v)
            elif v.get("imprecise"):
                r["undecided"].append(f"{v['label']}: refuted only under an imprecise model")
            elif v["label"] == "no unexpected exception" and r["native"].get("ok"):
                r["undecided"].append(f"{v['label']}: {v['detail']} (not reproduced)")
            else:
                unconfirmed.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    obligations = sum(sum(c[k] for k in ("discharged", "refuted", "undecided")) for r in results for c in r["obligations"].values()) if results else 0
    discharged = sum(c["discharged"] for r in results for c in r["obligations"].values()) if results else 0
    backends = {}
    for r in results:
        for c in r["obligations"].values():
            for b, n in c["backends"].items():
                backends[b] = backends.get(b, 0) + n
    for r in results:
        for e in sorted(set(str(e) for e in r["native"].get("errors") or []))[:5]:
            r["undecided"].append("run time: outside the contract of the specification: " + e[:200])
    undec = {r["harness"]: r["undecided"] for r in results if r["undecided"]}
    for r in results:
        un = [l for l, c in r["obligations"].items() if c["undecided"]]
        if un:
            undec.setdefault(r["harness"], []).extend("solver gave no answer: " + l for l in un)
        if r["obligations"] and not r.get("reachable") and not r["violations"]:
            undec.setdefault(r["harness"], []).append("vacuity: the end of the harness was not shown reachable")
    native = {r["harness"]: r["native"] for r in results}
    evals = sum(n.get("checks", 0) for n in native.values())
    level = getattr(mod, "LEVEL", "proof")
    symbolic = [h.name for h in mod.HARNESSES if h.opts.get("symbolic", True)]
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {a.tier} --seed {a.seed}",
        "trusted_base": ["pyvc: symbolic semantics of Python in /verif/pyvc", "z3", "cvc5 (second opinion on unknown)"]
        + sorted({m for r in results for m in r["models"]}),
        "discharged_by": backends,
        "obligation_labels": {r["harness"]: {l: {k: c[k] for k in ("discharged", "refuted", "undecided")} for l, c in r["obligations"].items()} for r in results},
        "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
        "paths": sum(r.get("paths", 0) for r in results),
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "solver_queries": sum(r.get("queries", 0) for r in results),
        "undecided": undec,
        "harnesses_proved": sorted(r["harness"] for r in results if r["harness"] in symbolic and r["obligations"] and r["harness"] not in undec
                                   and all(c["refuted"] == 0 for c in r["obligations"].values())),
        "harnesses_bounded_only": sorted(set(h.name for h in mod.HARNESSES) - set(symbolic)) + sorted(undec),
        "evaluations": sum(n.get("runs", 0) for n in native.values()),
        "distinct_nontrivial": sum(n.get("distinct", 0) for n in native.values()),
        "rule": "run-time contract checks: harness runs under CPython on the real code with inputs drawn from a seeded generator; "
                "non-trivial = precondition held and the run's inputs differ from every earlier run of that harness",
        "samples": [x for n in native.values() for x in n.get("samples", [])][:12],
        "runtime_contract_checks": evals,
        "unconfirmed_refutations": [jsonable(v) for v in unconfirmed][:5],
    }
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": level, "coverage": jsonable(cov),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol) + (0 if viol else len(unconfirmed))}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for r in results:
            print(r["harness"], "%.1fs" % r["wall_s"], "paths", r.get("paths"), r["native"].get("runs"), "undecided", undec.get(r["harness"]))
            if not r["obligations"] and "obligations" in r and r.get("paths"):
                print("   no obligations")
    for f in seen_findings.values():
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    print(f"{pid}: {discharged}/{obligations} obligations discharged, {evals} run-time contract checks, "
          f"{len(undec)} harness(es) with undecided parts, {time.time() - t0:.1f} s")
    if not viol and not unconfirmed:
        if obligations == 0 and evals == 0:
            print("nothing was checked", undec)
            return 3
        if undec and a.v:
            print(json.dumps(undec, indent=1))
        return 0
    seen = set()
    n = 0
    for v in (viol or unconfirmed):
        k = (v["harness"], v["label"])
        if k in seen:
            continue
        seen.add(k)
        path = os.path.join(VERIF, "replay", f"{pid}-{n}.json")
        n += 1
        with open(path, "w") as f:
            json.dump(jsonable(dict(v, property=pid, how=f"/opt/venv/bin/python /verif/check.py --replay {path}")), f, indent=1)
        print(f"  {v['harness']}: {v['label']} inputs={str(v['inputs'])[:300]} {str(v.get('detail'))[-300:]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if viol else " no-failing-input-found"))
    return 1


COMMON = [
    "floating-point numbers are treated as mathematical reals and int as unbounded integers in proofs (run-time checks use CPython floats)",
    "logging and warnings have no effect; locks are uncontended unless the harness states a schedule",
    "the semantics of Python implemented by pyvc agrees with CPython on the verified functions (cross-checked by running every harness natively)",
    "models listed in trusted_base describe the builtins, standard library and third-party functions they replace",
]

if __name__ == "__main__":
    sys.exit(main())
