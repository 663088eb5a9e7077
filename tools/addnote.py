"""addnote.py Cxx TEXT: sets the level note of a property and rewrites MANIFEST.json."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json")
d = json.load(open(p)); d[sys.argv[1]] = sys.argv[2]
open(p, "w").write(json.dumps(d, indent=1) + "\n")
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(p), "mkmanifest.py")])
