#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")

from sx import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--selftest", action="store_true", help="check that the tools the checks need are there")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--only")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
if a.selftest:
    sys.exit(runner.selftest())
sys.exit(runner.main(a.prop, a.tier, a.only, a.v))
