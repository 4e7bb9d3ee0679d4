"""Write MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo/src", ROOT]
import warnings; warnings.filterwarnings("ignore")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if not os.path.exists(os.path.join(ROOT, "vf", "props", i + ".py")):
        na.append(dict(property=i, reason="no monitor has been built yet"))
        continue
    P = importlib.import_module(f"vf.props.{i}").P
    checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
                       thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=P.technique,
                       level="exploration", level_note=P.note))
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'/repo/src'); import numpy, scipy, cvxpy, cdd, rigeo\"",
           checks=checks, not_applicable=na,
           notes="No hooks in /repo: every monitor is installed from the outside around the public API. VERIF_SRC may point a run at another source tree (used for planted bugs); by default /repo/src is run.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
