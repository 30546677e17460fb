"""pv.py PROP CASE [seconds]: run one case in this process and show its obligations"""
import faulthandler
import importlib
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("PYVC_TRACE", "1")
sys.setrecursionlimit(20000)
from pyvc.prove import run_case
prop, name = sys.argv[1], sys.argv[2]
sec = float(sys.argv[3]) if len(sys.argv) > 3 else 60
mod = importlib.import_module("contracts." + prop.lower())
faulthandler.dump_traceback_later(sec + 10, exit=True)
for i, x in enumerate(mod.CASES):
    n = x[0]
    if n == name or (name.endswith("*") and n.startswith(name[:-1])):
        r = run_case(prop, i, sec)
        print("==", n, round(r["wall"], 2), r["error"] or "", r["vacuity"])
        for o in r["obligations"]:
            print("  ", o["status"], o["name"], o["backend"] if "backend" in o else "", o.get("s"), o.get("paths"), o.get("detail"), str(o.get("model", ""))[:300])
