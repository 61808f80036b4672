"""addtech.py ID module note: record the deciding method of a check."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
d = json.load(open(p))
pid, mod, what, note = sys.argv[1:5]
d[pid] = {"technique": f"TLA+ state machine spec/{mod} model-checked with TLC; {what}", "note": note}
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
