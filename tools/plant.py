"""Plant bugs in scratch copies of /repo:  plant.py SPEC.py [id ...] [--nocheck]

SPEC.py defines BUGS: list of dict(id, property, edits=[(file, old, new)...], demo=<python text>, needs, breaks).
A bug is confirmed (tests pass with it, demo fails with it and passes without), then stored in
/verif/seeded/<id>, then the property's quick check is run against the scratch copy.
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

SEED = os.environ.get("SEED_DIR", "/verif/seeded")
ENV = dict(os.environ, HOME="/root", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", PIP_NO_INDEX="1")
BASE = set()


def base():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=True, capture_output=True, text=True, timeout=timeout)


def confirm(b):
    d = f"/tmp/pl/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    sh("git checkout -q -- . ", d)
    for f, old, new in b["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return b, f"edit of {f} matches {s.count(old)} times: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", d).stdout
    o = os.path.join(SEED, b["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(o + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python '
                                    '"$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(o + "/meta.json", "w"), indent=1)
    r = sh(f"bash {o}/demo.sh", "/repo", timeout=300)
    if r.returncode != 0:
        return b, "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:]
    r = sh(f"bash {o}/demo.sh", d, timeout=300)
    if r.returncode == 0:
        return b, "demo passes with the bug"
    demo_out = (r.stdout + r.stderr).strip().split("\n")[-1]
    r = sh("PATH=/opt/venv/bin:$PATH PYTHONPATH=/opt/vp/plugins:" + d + " /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
           f"--no-cov -p vp_seed --timeout=300 -n 0 --continue-on-collection-errors -m 'not inference' --junitxml={d}.xml "
           "-o junit_family=xunit2 skops", d)
    tail = r.stdout.strip().split("\n")
    failed = [l for l in tail if l.startswith(("FAILED", "ERROR")) and "test_example_model_cards" not in l]
    if failed or "passed" not in tail[-1]:
        return b, "tests fail: " + "; ".join(failed[:5]) + tail[-1] + r.stderr[-300:]
    print(b["id"], "confirmed:", demo_out[:150], "|", tail[-1], flush=True)
    return b, None


def check(b):
    d = f"/tmp/pl/{b['id']}"
    r = sh(f"/opt/venv/bin/python checks/run.py {b['property']} quick", "/verif",
           dict(ENV, SX_REPO=d, VERIF_TIER="quick", VERIF_SEED="1"))
    caught = r.returncode == 1 and "VIOLATION property=" in r.stdout
    print("CAUGHT" if caught else "MISSED", b["id"], "\n    " +
          "\n    ".join(l[:260] for l in r.stdout.strip().split("\n")[:4]), flush=True)
    return caught


if __name__ == "__main__":
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in spec["BUGS"] if not ids or b["id"] in ids]
    ok = []
    with ThreadPoolExecutor(4) as ex:
        for b, err in ex.map(confirm, bugs):
            if err:
                print("REJECTED", b["id"], err, flush=True)
                shutil.rmtree(os.path.join(SEED, b["id"]), ignore_errors=True)
                shutil.rmtree(f"/tmp/pl/{b['id']}", ignore_errors=True)
            else:
                ok.append(b)
    for b in ok:
        if "--nocheck" not in sys.argv:
            check(b)
        if "--keep" not in sys.argv:
            shutil.rmtree(f"/tmp/pl/{b['id']}", ignore_errors=True)
