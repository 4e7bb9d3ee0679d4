"""Turn bug specs into /verif/seeded/<id>: validates the patch (original lines only, stable tests, demo) in a scratch
copy and runs the checks against it.   plant.py SPEC.py [id ...] [--checks own|all|C01,C02]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "0f677de"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", MPLBACKEND="Agg")
PRE = 'import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\nimport numpy as np\nimport cvxpy as cp\nimport rigeo as rg\nassert rg.__file__.startswith(os.getcwd()), rg.__file__\n\n'
SH = '#!/bin/sh\n# exit 0: the property holds on this input; nonzero: it does not\nexec env OMP_NUM_THREADS=1 timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def orig_lines_only(wd, files):
    for f in files:
        d = sh(f"git diff -U0 -- {f}", wd).stdout
        old = 0
        blame = sh(f"git blame -s --abbrev=12 HEAD -- {f}", wd).stdout.splitlines()
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for k in range(a, a + n):
                old += 1
                if not blame[k - 1].startswith("^"):
                    h = blame[k - 1].split()[0]
                    full = sh(f"git rev-parse --short=12 {BASE}", wd).stdout.strip()
                    if not h.startswith(full[:11]):
                        return f"{f}:{k} is not an original line: {blame[k-1]}"
        if not old:
            return f"{f}: pure insertion"
    return None


def plant(s, checks):
    i = s["id"]
    out = [f"== {i} ({s['property']})"]
    wd = f"/tmp/plant/{i}"
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(f"cp -a /repo {wd}")
    res = {"id": i, "ok": False}
    try:
        files = []
        for f, a, b in s["edits"]:
            p = os.path.join(wd, "src/rigeo", f)
            t = open(p).read()
            if t.count(a) != 1:
                out.append(f"  EDIT: {t.count(a)} matches in {f} for {a[:50]!r}")
                return out, res
            open(p, "w").write(t.replace(a, b))
            files.append(os.path.normpath(f"src/rigeo/{f}"))
        bad = orig_lines_only(wd, sorted(set(files)))
        if bad:
            out.append("  PATCH: " + bad)
            return out, res
        patch = sh("git diff", wd).stdout
        env = dict(ENV, PYTHONPATH=wd + "/src")
        with tempfile.TemporaryDirectory() as td:
            sh(f"{PY} -m pytest tests -q -p no:cacheprovider -p pytest_timeout -p xdist.plugin -n 4 --timeout=300 --continue-on-collection-errors --tb=line -o junit_family=xunit2 --junitxml={td}/junit.xml", wd, env)
            sh(f"/usr/bin/python3 /opt/vp/results.py {td}/o.json junit:{td}/junit.xml")
            r = json.load(open(f"{td}/o.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        lost = set(stable) - set(r["passed"])
        if lost:
            out.append(f"  TESTS: fails {sorted(lost)[:3]}")
            return out, res
        d = f"/tmp/plant/{i}.demo"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(PRE + s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        c, m = sh(f"sh {d}/demo.sh", "/repo"), sh(f"sh {d}/demo.sh", wd)
        if c.returncode != 0 or m.returncode == 0:
            out.append(f"  DEMO: clean {c.returncode} {c.stderr[-300:]} mutant {m.returncode} {m.stderr[-200:]}")
            shutil.rmtree(d)
            return out, res
        t = f"{ROOT}/seeded/{i}"
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.move(d, t)
        open(t + "/patch.diff", "w").write(patch)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(t + "/meta.json", "w"), indent=1)
        res["ok"] = True
        ids = [s["property"]] if checks == "own" else [f"C{k:02d}" for k in range(1, NPROPS + 1)] if checks == "all" else checks.split(",")
        hit = []
        for p in ids:
            r = sh(f"{PY} run.py {p}", ROOT, dict(ENV, VERIF_SRC=wd + "/src", VERIF_SEED="1"), 1800)
            if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout:
                hit.append(p)
            elif r.returncode:
                hit.append(f"{p}(rc={r.returncode})")
            if p == s["property"]:
                res["own"] = p in hit
                out.append(f"  own check {'CAUGHT' if p in hit else 'MISSED'}: " + " | ".join(r.stdout.strip().splitlines()[1:3])[:260])
        res["hit"], res["ran"] = hit, ids
        if len(ids) > 1:
            out.append(f"  caught by {hit}")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return out, res


NPROPS = len(open(os.path.join(ROOT, "properties.jsonl")).read().splitlines())
if __name__ == "__main__":
    a = sys.argv[1:]
    checks = "own"
    if "--checks" in a:
        k = a.index("--checks")
        checks = a[k + 1]
        del a[k:k + 2]
    ns = {}
    exec(open(a[0]).read(), ns)
    rf = os.path.join(ROOT, "tools", "seeded_results.json")
    for s in ns["BUGS"]:
        if len(a) > 1 and s["id"] not in a[1:]:
            continue
        out, res = plant(s, checks)
        print("\n".join(out), flush=True)
        if res["ok"]:
            R = json.load(open(rf)) if os.path.exists(rf) else {}
            if "own" in res:
                R.setdefault(s["id"], {})["caught"] = "yes" if res["own"] else "no"
            if len(res["ran"]) > 1:
                R.setdefault(s["id"], {})["others"] = " ".join(h for h in res["hit"] if h != s["property"])
            json.dump(R, open(rf, "w"), indent=1, sort_keys=True)
