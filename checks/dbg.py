"""dbg.py PROP OBLIGATION [profile]: run one obligation inline."""
import os, sys, time, json
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE)); sys.path.insert(0, HERE)
import warnings; warnings.filterwarnings("ignore")
sys.setrecursionlimit(3000)
from symx import driver, instr
prop, ob = sys.argv[1:3]
name = "h_" + prop.lower()
f = instr.install([driver.REPO], ["skops", "hlib", "arch", name, *instr.harness_prefixes(HERE, name)], instr.wants_steps(HERE, name)); instr.EXTRA_ROOTS[:] = [HERE] + [p for p in sys.path if p.endswith("site-packages")][:1]
check = __import__(name)
import skops.io, skops.card
if hasattr(check, "prepare"): check.prepare()
obs = {o["name"]: o for t in ("quick","thorough") for o in check.obligations(t)}
for o in check.obligations(os.environ.get("VERIF_TIER","quick")): obs[o["name"]] = o
if ob == "list": print(list(obs)); sys.exit()
o = obs[ob]; o["time"] = float(os.environ.get("T", o.get("time", 60)))
if len(sys.argv) > 3:
    import cProfile, pstats
    pr = cProfile.Profile(); pr.enable()
    r = driver.run_obligation(o, time.time()+1000)
    pr.disable(); pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
else:
    r = driver.run_obligation(o, time.time()+1000)
st = r["stats"]; st.pop("functions", None)
print(json.dumps(st, indent=1, default=repr))
for v in r["violations"][:5]: print("VIOL", v)
for v in r["samples"][:4]: print("SAMPLE", v)
for v in r["errs"][:3]: print("ERR", v)
for v in (r["stats"].get("errors") or [])[:3]: print("ENGERR", str(v)[:1500])
