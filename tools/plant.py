"""plant.py SPECS.py [ids]: build /verif/seeded/<id>/ from edit specifications, keeping only those that
change original lines, pass the stable tests in a scratch copy, and have a demonstration that tells them apart."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "aee51ce"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(b):
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        w = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(w, "src/climate_indices", f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"REJECT: {s.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        # changed original lines
        for f in {e[0] for e in b["edits"]}:
            bl = subprocess.run(["git", "-C", w, "blame", "-s", "HEAD", "--", "src/climate_indices/" + f], capture_output=True, text=True).stdout.split("\n")
            ln = None
            for l in subprocess.run(["git", "-C", w, "diff", "-U0", "--", "src/climate_indices/" + f], capture_output=True, text=True).stdout.split("\n"):
                if l.startswith("@@"):
                    ln = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if not bl[ln - 1].lstrip("^").startswith(BASE[:6]):
                        return b["id"], f"REJECT: not an original line: {bl[ln-1]}"
                    ln += 1
        sd = os.path.join(d, "seed")
        os.makedirs(sd)
        open(os.path.join(sd, "demo.py"), "w").write(b["demo"])
        open(os.path.join(sd, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        env = dict(os.environ, PYTHONPATH=os.path.join(w, "src"), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        e0 = {k: v for k, v in env.items() if k != "PYTHONPATH"}
        r0 = subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd="/repo", env=e0, capture_output=True, text=True, timeout=280)
        if r0.returncode:
            return b["id"], "REJECT: demo fails on the unchanged tree: " + r0.stderr[-500:]
        r1 = subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd=w, env=env, capture_output=True, text=True, timeout=280)
        if not r1.returncode:
            return b["id"], "REJECT: demo passes with the patch"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests", "--deselect", "x"], cwd=w, env=env, capture_output=True, text=True)
        if t.returncode:
            return b["id"], "REJECT: tests: " + "\n".join(l for l in t.stdout.split("\n") if l.startswith(("FAILED", "ERROR")))[:400]
        out = os.path.join(H, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(sd, out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        return b["id"], "kept (demo with patch: " + (r1.stderr.strip().split("\n") or [""])[-1][:150] + ")"
    finally:
        shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(7) as ex:
    for i, m in ex.map(one, [b for b in ns["BUGS"] if not only or b["id"] in only]):
        print(i, m, flush=True)
