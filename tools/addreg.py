"""addreg.py C16 sub name  (case JSON on stdin): save a regression case after checking it passes on the current tree."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
prop, sub, name = sys.argv[1:4]
rec = {"property": prop, "sub": sub, "case": json.load(sys.stdin)}
d = "/verif/regress/" + prop
os.makedirs(d, exist_ok=True)
with open(os.path.join(d, name + ".json"), "w") as f:
    json.dump(rec, f, indent=1)
