"""addfix.py 'fixed: ...': records a repair."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)); d["fixed"].append(sys.argv[1])
s = json.dumps(d, indent=1, ensure_ascii=False)
open(p, "w").write(s + "\n")
