"""Writes DESIGN.md from tools/design_head.md, the properties, the checks' own assumptions, the repairs and the planted bugs."""
import ast, json, os, glob
V = "/verif"
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties and how each is decided", ""]
detail = json.load(open(V + "/tools/design.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
for p in props:
    i = p["id"]
    src = open("%s/checks/%s.py" % (V, i.lower())).read()
    tree = ast.parse(src)
    subs, ass = [], []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Sub":
            a = n.args
            subs.append((a[0].value, a[3].value, a[4].value, ast.literal_eval(a[5]) if len(a) > 5 else ""))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    d = detail[i]
    out += ["- *Generated:* " + d["gen"], "- *Oracle:* " + d["oracle"], "- *Why beyond the tests:* " + d["why"]]
    for a in ass:
        out.append("- *Assumed:* " + a)
    out += ["- *Sub-checks (cases quick / thorough; non-trivial when):* " + "; ".join("`%s` %d / %d (%s)" % s for s in subs), ""]
out += [open(V + "/tools/design_mid.md").read().rstrip(), ""]
out += ["## Defects found and repaired", "", "Each is a `fix:` commit of its own in /repo, listed in known_findings.json as fixed; none is left",
        "as a known finding. `tools/revert.sh COMMIT ID` takes one back in a scratch worktree and runs the check, which must report it.", "",
        "| property | commit | what failed |", "|---|---|---|"]
for k in json.load(open(V + "/known_findings.json"))["findings"]:
    out.append("| %s | %s | %s |" % (k["property"], k["commit"], k["what"]))
out += ["", "## Planted bugs", "",
        "Written from the property text and the code; each compiles, passes the stable tests and has a demonstration.", "",
        "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    name = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(name, "?")))
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
