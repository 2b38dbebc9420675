"""mutants: python3 mut.py <worker> <nworkers> <seed> [files...]"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
W, N, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:]
BASE = "/tmp/w/mut/base"
D = "/tmp/w/mut/d%d" % W
V = "/tmp/w/mut/v%d" % W
OUT = "/tmp/w/mut/res%d.jsonl" % SEED
CM = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

def sites(tree):
    """yield (desc, apply()) which mutate the tree in place; enumerated by number"""
    for node in ast.walk(tree):
        ln = getattr(node, "lineno", 0)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            def f(node=node): node.test = ast.UnaryOp(ast.Not(), node.test)
            yield "%d negate test" % ln, f
            if not isinstance(node, ast.While):
                def f(node=node): node.test = ast.Constant(False)
                yield "%d test false" % ln, f
                def f(node=node): node.test = ast.Constant(True)
                yield "%d test true" % ln, f
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                if type(op) in CM:
                    def f(node=node, i=i, op=op): node.ops[i] = CM[type(op)]()
                    yield "%d cmp %s" % (ln, type(op).__name__), f
        if isinstance(node, ast.BoolOp):
            def f(node=node): node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            yield "%d boolop" % ln, f
            for i in range(len(node.values)):
                def f(node=node, i=i):
                    del node.values[i]
                    if len(node.values) == 1: node.values.append(node.values[0])
                yield "%d drop operand %d" % (ln, i), f
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            def f(node=node): node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
            yield "%d binop" % ln, f
        if isinstance(node, ast.Constant) and not isinstance(node.value, str):
            if isinstance(node.value, bool):
                def f(node=node): node.value = not node.value
                yield "%d flip" % ln, f
            elif isinstance(node.value, int):
                def f(node=node): node.value += 1
                yield "%d const+1" % ln, f
        if isinstance(node, ast.Return) and node.value is not None:
            def f(node=node): node.value = ast.Constant(None)
            yield "%d return None" % ln, f
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            def f(node=node): node.args[0], node.args[1] = node.args[1], node.args[0]
            yield "%d swap args" % ln, f
        if isinstance(node, ast.Call) and node.keywords:
            for i in range(len(node.keywords)):
                def f(node=node, i=i): del node.keywords[i]
                yield "%d drop kw %s" % (ln, node.keywords[i].arg), f
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def f(b=b, i=i): b[i] = ast.Pass()
                        yield "%d del stmt" % s.lineno, f
                    if isinstance(s, (ast.Break, ast.Continue)):
                        def f(b=b, i=i, s=s): b[i] = ast.Continue() if isinstance(s, ast.Break) else ast.Break()
                        yield "%d break/continue" % s.lineno, f
                    if isinstance(s, ast.FunctionDef) and len(b) > 1:
                        def f(b=b, i=i): b[i] = ast.Pass()
                        yield "%d del method %s" % (s.lineno, s.name), f
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            def f(node=node): node.type = ast.Name("ZeroDivisionError", ast.Load())
            yield "%d except off" % ln, f

ORDER = {
 "coll": "07 08 06 16 09 05 10 12 13 25 24",
 "diff": "15 16 17 05 23 24", "empty": "21 18", "exc": "19 11 02 13 01 24", "identity": "05 16 17 15 12 23",
 "selector": "13 12 14 15 16 17 24", "subtype": "20 02 24", "visitor": "18 24",
 "property/__init__": "01 02 03 04 05 06 21 19 24 25", "property/coll": "19 07 08 04 09 25 24", "property/json": "09 10 11 19 22 26",
 "property/meta": "19 04 03 02 21 24", "property/types": "20 19 02 24", "record/__init__": "04 05 06 01 15 25 24",
 "record/json": "09 10 11 22 15 26 24", "record/meta": "04 05 19 25 24", "__init__": "19 ",
}
ALL = ["C%02d" % i for i in range(1, 29)]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", VERIF_REPO=D, VERIF_SEED="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def tests():
    env = dict(ENV, PYTHONPATH=D)
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"] + DESEL, cwd=D, env=env, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0
DESEL = [x for l in open("/tmp/w/mut/desel.txt") for x in ("--deselect", l.strip())]

def run(checks, scale):
    for c in checks:
        try:
            r = subprocess.run([V + "/run.sh", c, "quick", "--scale", str(scale)], env=ENV, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return c + ":timeout"
        if r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout:
            return c
        if r.returncode:
            return c + ":rc%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:])
    return None

LINES = {}
def main():
    muts = []
    for root, _, fs in os.walk(BASE + "/normalize"):
        for fn in sorted(fs):
            if fn.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, fn), BASE + "/normalize")
                if FILES and rel not in FILES: continue
                t = ast.parse(open(os.path.join(root, fn)).read())
                for i, (d, _) in enumerate(sites(t)):
                    muts.append((rel, i, d))
    muts.sort()
    old = "/tmp/w/mut/oldr/normalize/"
    tried = set()
    for l in open("/tmp/w/mut/res1.jsonl"):
        x = json.loads(l)
        ln, kind = x["d"].split(" ", 1)
        tried.add((x["file"], kind, open(old + x["file"]).read().split("\n")[int(ln) - 1].strip()))
    def text(rel, d):
        ln, kind = d.split(" ", 1)
        return rel, kind, LINES.setdefault(rel, open(BASE + "/normalize/" + rel).read().split("\n"))[int(ln) - 1].strip()
    muts = [m for m in muts if text(m[0], m[2]) not in tried]
    random.Random(SEED).shuffle(muts)
    done = set()
    if os.path.exists(OUT):
        done = {(json.loads(l)["file"], json.loads(l)["i"]) for l in open(OUT)}
    if W == 0: print(len(muts), "mutants", flush=True)
    for n, (rel, i, d) in enumerate(muts):
        if n % N != W or (rel, i) in done: continue
        p = D + "/normalize/" + rel
        src = open(BASE + "/normalize/" + rel).read()
        t = ast.parse(src)
        for j, (dd, f) in enumerate(sites(t)):
            if j == i: f(); break
        ast.fix_missing_locations(t)
        new = ast.unparse(t)
        if new == ast.unparse(ast.parse(src)): continue
        open(p, "w").write(new)
        try:
            if not tests():
                res = "tests"
            else:
                k = rel[:-3]
                first = ["C" + x for x in ORDER.get(k, "").split()]
                t0 = time.time()
                res = run(first + [c for c in ALL if c not in first], 0.35) or "SURVIVED"
        finally:
            shutil.copy(BASE + "/normalize/" + rel, p)
        with open(OUT, "a") as f:
            f.write(json.dumps({"file": rel, "i": i, "d": d, "res": res, "text": text(rel, d)[2]}) + "\n")
main()
