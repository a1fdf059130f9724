"""mutate.py OUT N SEED [FILE...]: random single-place edits of /repo/python/src, each tried against every check.

Every mutant lives in a scratch copy of python/src; nothing in /repo is touched.  OUT gets one JSON line per mutant:
where, what, and the first check that reported it (or null).
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

SRC = "/repo/python/src"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % k for k in range(1, 22)]
FIRST = {
    "mtl.py": ["C01", "C07", "C08", "C09", "C12", "C13", "C14", "C15", "C18", "C20", "C19"],
    "mtln.py": ["C06", "C13", "C14", "C19"],
    "networks.py": ["C07", "C06", "C10", "C19"],
    "dispersive.py": ["C09", "C08", "C20", "C19"],
    "probes.py": ["C12", "C17"],
    "jsonParser.py": ["C10", "C11", "C19"],
    "waveforms.py": ["C16", "C10"],
    "utils.py": ["C15", "C10", "C12"],
}
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def points(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    data = text.encode()
    pos = lambda n: (start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: data[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(n, new, how):
        a, b = pos(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, how, n.lineno))

    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            add(n, "(%s %s %s)" % (seg(n.left), SWAP[type(n.op)], seg(n.right)), "operator")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "comparison")
        if isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + w.join(seg(v) for v in n.values) + ")", "and/or")
            add(n, seg(n.values[0]), "first condition only")
            add(n, seg(n.values[-1]), "last condition only")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, seg(n.operand), "sign or not removed")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for v in ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 2, 0.0]):
                add(n, repr(v), "number")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), "boolean")
        if isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (seg(n.target), seg(n.value)), "accumulation lost")
            add(n, "pass", "statement removed")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "statement removed")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "statement removed")
        if isinstance(n, ast.If):
            add(n.test, "True", "always")
            add(n.test, "False", "never")
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f.endswith(".copy") and not n.args:
                add(n, f[:-5], "no copy")
            if f == "deepcopy":
                add(n, seg(n.args[0]), "no copy")
            for a, b in (("np.min", "np.max"), ("np.max", "np.min"), ("np.argmin", "np.argmax"), ("min", "max"), ("max", "min")):
                if f == a:
                    add(n.func, b, "min/max")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                add(n.args[0], seg(n.args[1]), "argument repeated")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                add(n.slice.lower, "", "slice start")
            if n.slice.upper is not None:
                add(n.slice.upper, "", "slice end")
        if isinstance(n, ast.For):
            add(n.iter, "list(%s)[1:]" % seg(n.iter), "first skipped")
            add(n.iter, "list(%s)[:-1]" % seg(n.iter), "last skipped")
            add(n.iter, "list(%s)[::-1]" % seg(n.iter), "order reversed")
    return data, out


def trial(job):
    k, name, a, b, new, how, line, old, scale = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        data = open(os.path.join(SRC, name), "rb").read()
        with open(d + "/src/" + name, "wb") as f:
            f.write(data[:a] + new.encode() + data[b:])
        rec = {"k": k, "file": name, "line": line, "how": how, "old": old[:100], "new": new[:100], "killed": None}
        if subprocess.run([sys.executable, "-m", "py_compile", d + "/src/" + name], capture_output=True).returncode:
            return None
        first = FIRST.get(name, [])
        env = dict(os.environ, VERIF_REPO_PYTHON=d, VERIF_SHARDS="1", VERIF_SCALE=str(scale), VERIF_BUDGET_S="90",
                   VERIF_EVIDENCE=d + "/evidence", VERIF_REPLAYS=d + "/replays", OMP_NUM_THREADS="1")
        errors = []
        for c in first + [x for x in ALL if x not in first]:
            try:
                r = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), "check", c], capture_output=True, text=True, env=env,
                                   timeout=400)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = "timeout"
            if code == 1:
                rec["killed"] = c
                rec["message"] = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
                break
            if code != 0:
                errors.append((c, code))
        rec["errors"] = errors
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(os.path.relpath(os.path.join(d, f), SRC) for d, _, fs in os.walk(SRC)
                                   for f in fs if f.endswith(".py") and f not in ("VF_eps.py", "VF_z.py"))
    scale = float(os.environ.get("MUT_SCALE", "0.15"))
    jobs = []
    for name in files:
        data, pts = points(open(os.path.join(SRC, name)).read())
        for a, b, new, how, line in pts:
            jobs.append((name, a, b, new, how, line, data[a:b].decode(), scale))
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "places")
    jobs = [(k,) + j for k, j in enumerate(jobs[:n])]
    done = alive = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex, open(out, "a") as f:
        for r in ex.map(trial, jobs):
            if r is None:
                continue
            done += 1
            alive += r["killed"] is None
            f.write(json.dumps(r) + "\n")
            f.flush()
    print(done, "mutants,", alive, "not reported")


if __name__ == "__main__":
    main()
