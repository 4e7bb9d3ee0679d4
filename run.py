#!/opt/venv/bin/python
"""Entry point: run.py <property> [--tier quick|thorough] [--only groups] [--replay file]"""
import os
import sys

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "RAYON_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
# the code under test is always the working tree of /repo
sys.path.insert(0, os.environ.get("VERIF_SRC", "/repo/src"))
sys.path.insert(0, HERE)
import warnings

warnings.filterwarnings("ignore")
from vf.core import main

sys.exit(main(sys.argv[1:]))
