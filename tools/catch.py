#!/usr/bin/env python3
"""Development tool: runs checks against planted bugs (seeded/<id>) or against refactored trees, in scratch copies.

  catch.py seeds [ids...]            the check of each bug's property must report it
  catch.py tree DIR [props...]       the checks must stay quiet on the tree DIR (a behaviour-preserving edit)
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(tree, prop, build, seed="1"):
    env = dict(os.environ, LF_REPO=tree, LF_BUILD=build)
    t = time.time()
    r = subprocess.run([sys.executable, DRV + "/run.py", prop, "--seed", seed], env=env, capture_output=True, text=True, timeout=1500)
    return r.returncode, r.stdout, time.time() - t


tmp = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
DRV = tmp + "/drv"
os.makedirs(DRV)
for x in ("run.py", "harness", "rt", "known_findings.txt"):
    (shutil.copytree if os.path.isdir(V + "/" + x) else shutil.copy)(V + "/" + x, DRV + "/" + x)
bad = 0
try:
    if sys.argv[1] == "seeds":
        for n in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            d = V + "/seeded/" + n
            meta = json.load(open(d + "/meta.json"))
            w = tmp + "/w"
            os.makedirs(w)
            subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w} && cd {w} && git apply {d}/patch.diff", shell=True, check=True)
            for p in os.environ.get("PROPS", meta["property"]).split(","):
                rc, out, dt = run(w, p, tmp + "/b", os.environ.get("SEED", "1"))
                msg = [l for l in out.splitlines() if l.strip()]
                print("%-6s %-22s %s rc=%d %.0fs %s" % ("caught" if rc == 1 else "MISSED", n, p, rc, dt, (msg[0] if msg else "")[:150]), flush=True)
                bad += rc != 1
            shutil.rmtree(w)
            shutil.rmtree(tmp + "/b", ignore_errors=True)
    else:
        for p in sys.argv[3:] or ["C%02d" % i for i in range(1, 23)]:
            rc, out, dt = run(os.path.abspath(sys.argv[2]), p, tmp + "/b", os.environ.get("SEED", "1"))
            print("%-5s %s rc=%d %.0fs %s" % ("quiet" if rc == 0 else "ALARM", p, rc, dt, out.strip()[:1500 if rc else 130]), flush=True)
            bad += rc != 0
finally:
    shutil.rmtree(tmp)
sys.exit(bad != 0)
