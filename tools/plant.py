"""plant.py NAME...: confirm seeded bugs in scratch copies of /repo (patch applies, demo passes clean / fails patched,
the stable tests pass) and run the property's check on the patched copy. --no-tests skips the test suite."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = """-q -p no:cacheprovider -n 1 --timeout=120 --continue-on-collection-errors -m|not download
--ignore=tests/inventory --ignore=tests/interpolate/test_matrix_interpolate_fieldlist.py --ignore=tests/regrid_backends/test_matrix_fieldlist.py
--ignore=tests/regrid_backends/test_matrix_xarray.py --ignore=tests/regrid_mir/test_regrid_fieldlist.py --ignore=tests/regrid_mir/test_regrid_xarray.py"""


def sh(cmd, cwd, env, timeout=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(name, tests=True):
    d = os.path.join(V, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        wt = os.path.join(tmp, "wt")
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        env = dict(os.environ, PYTHONPATH=os.path.join(wt, "src"), HOME=os.path.join(tmp, "home"), XDG_CACHE_HOME=os.path.join(tmp, "home/.cache"),
                   ECKIT_GEO_CACHE_PATH=os.path.join(tmp, "home/geo"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        os.makedirs(env["HOME"])
        demo = ["bash", os.path.join(d, "demo.sh")]
        c0, o0 = sh(demo, wt, env, 300)
        a, oa = sh(["git", "apply", os.path.join(d, "patch.diff")], wt, env)
        if a:
            return name, "DOES NOT APPLY " + oa
        c1, o1 = sh(demo, wt, env, 300)
        out = f"demo clean={c0} patched={c1}"
        if c0 != 0 or c1 == 0:
            out += "  !!! " + (o0 if c0 else o1)[-1500:]
        if tests:
            j = os.path.join(tmp, "j.xml")
            args = []
            for w in TESTS.replace("\n", " ").split(" "):
                args += w.split("|") if "|" in w else [w]
            args = ["-q", "-p", "no:cacheprovider", "-n", "1", "--timeout=120", "--continue-on-collection-errors", "-m", "not download"] + [w for w in TESTS.split() if w.startswith("--ignore")]
            sh(["/opt/venv/bin/python", "-m", "pytest", *args, "--basetemp=" + os.path.join(tmp, "pt"), "-o", "junit_family=xunit2", "--junitxml=" + j], wt, env, 900)
            rj = os.path.join(tmp, "r.json")
            sh(["python3", "/opt/vp/results.py", rj, "junit:" + j], wt, env)
            res = json.load(open(rj))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(res.get("passed", [k for k, v in res.get("results", {}).items() if v == "passed"]))
            bad = [t for t in base if t not in passed]
            out += f" tests failing={len(bad)} {bad[:4]}"
        env2 = dict(os.environ, PYVC_REPO=wt)
        ck = os.path.join(tmp, "verif")
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", V + "/", ck]) if shutil.which("rsync") else \
            shutil.copytree(V, ck, ignore=shutil.ignore_patterns(".git", "seeded"))
        c2, o2 = sh(["/opt/venv/bin/python", "check.py", meta["property"]], ck, env2, 900)
        out += f" check={c2}\n      " + "\n      ".join(l[:220] for l in o2.strip().splitlines()[-4:])
        return name, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    names = [n for n in sys.argv[1:] if not n.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(4) as ex:
        for n, o in ex.map(lambda n: one(n, "--no-tests" not in sys.argv), names):
            print(n, o, flush=True)
