"""Run the quick checks of seeded bugs in scratch copies:  try.py [ids]"""
import json, os, shutil, subprocess, sys, time
from plant import ENV, SEED, sh
ids = sys.argv[1:] or sorted(os.listdir(SEED))
for i in ids:
    d = f"/tmp/pl/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/pl", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    sh("git checkout -q -- .", d)
    r = sh(f"git apply {SEED}/{i}/patch.diff", d)
    assert r.returncode == 0, r.stderr
    p = json.load(open(f"{SEED}/{i}/meta.json"))["property"]
    t = time.time()
    r = sh(f"/opt/venv/bin/python checks/run.py {p}", "/verif", dict(ENV, SX_REPO=d, VERIF_TIER="quick", VERIF_SEED="1"))
    print("CAUGHT" if r.returncode == 1 and "VIOLATION property=" in r.stdout else "MISSED", i, f"{time.time()-t:.0f}s",
          "\n    " + "\n    ".join(l[:260] for l in r.stdout.strip().split("\n")[:3]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
