"""mkseed helpers: seed(id, property, file, [(old, new)...], demo, needs, breaks) writes /verif/seeded/<id>/"""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export HOME="$d" XDG_CACHE_HOME="$d/.cache" ECKIT_GEO_CACHE_PATH="$d/geo" TMPDIR="$d" PYTHONDONTWRITEBYTECODE=1
timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py" "$d"
'''


def seed(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mk-")
    wt = os.path.join(tmp, "wt")
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    for f, old, new in edits:
        p = os.path.join(wt, "src/earthkit/regrid", f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True, check=True).stdout
    shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
