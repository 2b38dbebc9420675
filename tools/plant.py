"""plant.py make ID PROP 'needs' 'breaks' < edits   (see mk() for use from python)
   plant.py test ID [check ids]   apply, build, test, demo, run checks, undo
"""
import json, os, subprocess, sys, time
V = "/verif"; R = "/repo"
ORIG = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def base():
    """last commit before our own"""
    out = sh("git", "-C", R, "log", "--format=%H %s").stdout.splitlines()
    for l in out:
        if not l.split(" ", 1)[1].startswith("fix:"):
            return l.split()[0]
def clean():
    assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "repo dirty"
def undo():
    sh("git", "-C", R, "checkout", "--", ".")
def mk(id, prop, edits, demo, needs, breaks):
    clean()
    d = "%s/seeded/%s" % (V, id); os.makedirs(d, exist_ok=True)
    b = base()
    try:
        for path, old, new in edits:
            p = os.path.join(R, path); s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout
        orig = set()
        for path in set(e[0] for e in edits):
            orig |= set(sh("git", "-C", R, "show", "%s:%s" % (b, path)).stdout.splitlines())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print("NOT ORIGINAL:", l)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        undo()
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    test(id)
def test(id, checks=None, tier="quick"):
    clean()
    d = "%s/seeded/%s" % (V, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    checks = checks or [prop]
    r = sh(d + "/demo.sh", cwd=R)
    res = ["demo0=%d" % r.returncode]
    if r.returncode: print(r.stdout, r.stderr)
    a = sh("git", "-C", R, "apply", d + "/patch.diff"); assert not a.returncode, a.stderr
    try:
        res.append("build=%d" % sh("bash", "/opt/vp/build.sh").returncode)
        sh("bash", "/opt/vp/test.sh", "/tmp/w/out.json")
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/w/out.json"))["passed"])
        res.append("missing=%s" % sorted(miss))
        r = sh(d + "/demo.sh", cwd=R); res.append("demo1=%d" % r.returncode)
        for c in checks:
            if not os.path.exists("%s/checks/%s.py" % (V, c.lower())): res.append(c + "=nocheck"); continue
            t = time.time(); r = sh(V + "/run.sh", c, tier); 
            res.append("%s=%d(%.0fs)" % (c, r.returncode, time.time() - t))
            open("/tmp/w/pl/%s-%s.log" % (id, c), "w").write(r.stdout + r.stderr)
            if r.returncode > 1: res.append("VIOLATION" in r.stdout and "viol" or "NOANSWER")
    finally:
        undo(); sh("bash", "/opt/vp/build.sh")
    ok = res[0] == "demo0=0" and res[2] == "missing=[]" and res[3] != "demo1=0"
    print(id, prop, "COUNTS" if ok else "INVALID", *res, flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "test":
        ids = sorted(os.listdir(V + "/seeded")) if sys.argv[2] == "all" else [sys.argv[2]]
        for i in ids: test(i, sys.argv[3:] or None)
