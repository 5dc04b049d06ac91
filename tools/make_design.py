"""regenerate the per-property section of DESIGN.md from the properties, the specs, the evidence and the planted bugs"""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
A, B = "<!-- generated by tools/make_design.py -->", "<!-- end of the generated part -->"


def clean(t):
    return " ".join((t or "").split())


props = [json.loads(l) for l in open("properties.jsonl")]
known = json.load(open("known_findings.json"))
seeds = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[1], m))
out = []
for p in props:
    i = p["id"]
    try:
        mod = importlib.import_module("specs." + i.lower())
    except ModuleNotFoundError:
        out.append(f"### {i} {p['title']}\n\nnot claimed")
        continue
    out.append(f"### {i} {p['title']}\n")
    out.append(clean(p["statement"]) + "\n")
    doc = clean(mod.__doc__)
    ev = None
    if os.path.exists(f"evidence/{i}.json"):
        ev = json.load(open(f"evidence/{i}.json"))
    labels = (ev or {}).get("coverage", {}).get("obligation_labels", {})
    out.append("Contracts (one line per harness; a harness is precondition, call of the real code, postconditions):\n")
    for h in mod.HARNESSES:
        fn = h.fn
        kind = "run time only" if h.opts.get("symbolic") is False else "proved" if h.opts.get("native", True) else "proved, no run-time twin"
        ls = list(labels.get(fn.__name__, {}))
        out.append(f"- `{fn.__name__}` ({kind}): {clean(fn.__doc__) or 'see the labels'}" + (
            f". Obligations: {'; '.join(ls)}" if ls else ""))
    if ev:
        fs = ev["coverage"].get("functions_under_contract", [])
        names = [f if isinstance(f, str) else f.get("name", "") for f in fs]
        names = sorted({n.replace("earthkit.regrid.", "") for n in names if n.startswith("earthkit.regrid")})
        if names:
            out.append("\nFunctions of /repo executed under these contracts (" + str(len(names)) + "): " + ", ".join(f"`{n}`" for n in names))
    out.append("")
    note = getattr(mod, "LEVEL_NOTE", None)
    if note:
        out.append("Scope: " + clean(note) + ".\n")
    for a in getattr(mod, "ASSUMPTIONS", []):
        out.append("- assumed: " + clean(a))
    if getattr(mod, "ASSUMPTIONS", []):
        out.append("")
    out.append("Why tests cannot settle it: " + clean(p["why_tests_cant"]) + "\n")
    for f in known:
        if f["property"] == i:
            out.append("- " + f["line"])
    for n, m in seeds.get(i, []):
        out.append(f"- planted bug `{n}` ({clean(m['what_it_breaks'])}; needs {clean(m['needs'])}): caught by `check.py {i}`")
    out.append("")
text = open("DESIGN.md").read()
a, rest = text.split(A) if A in text else (text, "\n")
_, b = rest.split(B) if B in rest else ("", "\n")
open("DESIGN.md", "w").write(a + A + "\n\n" + "\n".join(out) + "\n" + B + b)
print(len(text), "->", os.path.getsize("DESIGN.md"))
