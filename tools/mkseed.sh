#!/bin/bash
# mkseed.sh ID PROP 'needs' 'what it breaks' < demo.py  -- takes the diff of the scratch clone /tmp/sd as the patch, and
# resets the clone (development aid; make it with: git clone /repo /tmp/sd)
d=/verif/seeded/$1; mkdir -p "$d"
git -C /tmp/sd diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no diff"; exit 1; }
git -C /tmp/sd checkout -- .
cat > "$d/demo.py"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/python" exec /opt/venv/bin/python "$here/demo.py"
S
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
