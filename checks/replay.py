"""Replay concrete records on the unmodified code: replay.py <property> <records.json>"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("SX_REPO", "/repo"))
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True


def main():
    prop, path = sys.argv[1:3]
    from symx import driver
    mod = __import__("h_" + prop.lower())
    with open(path) as f:
        recs = json.load(f)
    if hasattr(mod, "prepare_replay"):
        mod.prepare_replay()
    out = []
    for r in recs:
        try:
            out.append(driver.replay_one(mod, r["rec"]))
        except Exception as exc:
            out.append(dict(error=f"{type(exc).__name__}: {exc}\n" + traceback.format_exc()[-1200:]))
    sys.stdout.flush()
    print("\nREPLAY-RESULT " + json.dumps(dict(results=out), default=repr))
    sys.stdout.flush()
    bad = [r for r in out if r.get("violated")]
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main()
