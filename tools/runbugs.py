"""runbugs.py [ids] [--v]: run the check of each planted bug's property on a scratch copy of /repo's sources with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(H + "/seeded"))
for i in ids:
    d = f"{H}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="runbug_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        subprocess.run(["git", "-C", w + "/r", "apply", d + "/patch.diff"], check=True)
        env = dict(os.environ, PYVC_SRC=w + "/r/src", PYTHONPATH=w + "/r/src")
        r = subprocess.run([H + "/bin/check", prop], cwd=H, capture_output=True, text=True, env=env)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(i, prop, "exit", r.returncode, v[0] if v else "", flush=True)
    if "--v" in sys.argv:
        print(r.stdout)
