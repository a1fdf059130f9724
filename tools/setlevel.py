"""setlevel.py C16 'technique' 'note'"""
import json, sys
p = "/verif/tools/levels.json"
d = json.load(open(p))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
