"""Shared runner for all checks: Hypothesis-driven generated-input search.

A check module (checks/<id>.py) defines

    PROPERTY = "C01"
    RULE     = "how cases are made / what is non-trivial"
    PARTS    = [Part(name, strategy_factory, function, quick=N, thorough=M), ...]

Every generated case is *plain literal data* (ints, strings, tuples, lists,
dicts, ...); ``function(case, ctx)`` builds the objects of /repo from it, runs
them against the oracle and raises ``Violation`` when they disagree.  Because a
case is literal data a failing one is written to a replay file with repr() and
re-run without Hypothesis by ``run.sh <id> --replay FILE``.
"""
import ast
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHARDS = 4              # workers per part (fixed: part of the case sequence)
WORKERS = 8             # at a time
CPU_LIMIT = 90          # CPU seconds one single case may use


class Violation(AssertionError):
    """The property does not hold for this case."""


class Ctx(object):
    """What one case reports about itself."""
    __slots__ = ("nontrivial", "events", "note_", "clock")

    def __init__(self):
        self.nontrivial = False
        self.events = []
        self.note_ = None

    def hit(self, flag=True):
        if flag:
            self.nontrivial = True

    def event(self, label):
        self.events.append(label)

    def note(self, text):
        self.note_ = text


class Part(object):
    def __init__(self, name, strategy, fn, quick=300, thorough=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick * 5 // 2
        self.thorough = thorough or quick * 40


# -- oracle helpers ---------------------------------------------------------
def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    """equality that also tells bool/int/float and str/bytes apart"""
    if not strict_eq(got, want):
        raise Violation("%s: got %s, expected %s" % (
            what, short(got), short(want)))


def strict_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(
            strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not strict_eq(v, b[k]):
                return False
        # keys equal but of other type (1 vs True)
        return sorted(map(_tk, a)) == sorted(map(_tk, b))
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(_tk, a)) == sorted(map(_tk, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def _tk(x):
    return (type(x).__name__, repr(x))


def short(x, n=300):
    try:
        r = repr(x)
    except Exception as e:
        r = "<%s instance; repr() raised %s>" % (
            type(x).__name__, type(e).__name__)
    return r if len(r) <= n else r[:n] + "..."


class Raised(object):
    """Result of attempt(): carries the exception"""
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raised %s(%s)" % (type(self.exc).__name__, short(
            str(self.exc), 160))


def attempt(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except Exception as e:
        return Raised(e)


def raised(x, cls=Exception):
    return isinstance(x, Raised) and isinstance(x.exc, cls)


def must_raise(cls, fn, what):
    """fn() must raise cls; anything else is a violation"""
    r = attempt(fn)
    if not isinstance(r, Raised):
        raise Violation("%s: expected %s, but it returned %s" % (
            what, _names(cls), short(r)))
    if not isinstance(r.exc, cls):
        raise Violation("%s: expected %s, but it raised %s" % (
            what, _names(cls), r))
    return r.exc


def must_not_raise(fn, what):
    r = attempt(fn)
    if isinstance(r, Raised):
        raise Violation("%s: unexpectedly %r" % (what, r))
    return r


def _names(cls):
    return "/".join(c.__name__ for c in cls) if isinstance(
        cls, tuple) else cls.__name__


# -- environment ------------------------------------------------------------
def bootstrap():
    """Put /repo's working tree first and Hypothesis last on sys.path."""
    sys.dont_write_bytecode = True
    # anything already imported from an installed 'normalize' would be wrong
    sys.path[:] = [p for p in sys.path if p not in (REPO, VT_SITE)]
    sys.path.insert(0, REPO)
    sys.path.append(VT_SITE)
    # the package's venv has no dateutil; keep the other venv's copy (if any)
    # from changing what is being tested
    sys.modules.setdefault("dateutil", None)
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(3000)


def in_repo(tb):
    root = os.path.join(REPO, "normalize") + os.sep
    while tb is not None:
        if os.path.abspath(
                tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = collections.OrderedDict()
        self.events = collections.Counter()
        self.parts = {}
        self.current = None
        self.rule = ""
        self.findings = []

    def state(self):
        return dict(
            evaluations=self.evaluations, nontrivial=self.nontrivial,
            samples=self.samples, events=self.events, parts=self.parts)

    def merge(self, other):
        self.evaluations += other["evaluations"]
        self.nontrivial |= other["nontrivial"]
        self.events.update(other["events"])
        for k, v in other["samples"].items():
            have = self.samples.setdefault(k, [])
            have.extend(v[:max(0, 3 - len(have))])
        for k, v in other["parts"].items():
            mine = self.parts.setdefault(k, {"cases": 0, "nontrivial": 0})
            for f in v:
                mine[f] += v[f]

    def write_evidence(self, violations, extra=None):
        samples = []
        for part, lst in self.samples.items():
            samples.extend("%s: %s" % (part, s) for s in lst)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": samples or ["(none)"],
            "parts": self.parts,
            "events": dict(sorted(self.events.items())),
        }
        if extra:
            cov.update(extra)
        os.makedirs(EVIDENCE, exist_ok=True)
        out = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": [
                "the generators and reference models in /verif/checks and "
                "/verif/lib state the intended behaviour",
                "CPython 3.12, python-dateutil absent",
            ],
            "wall_s": round(time.time() - self.t0, 3),
            "violations": violations,
        }
        path = os.path.join(EVIDENCE, "%s.json" % self.prop)
        with open(path + ".tmp", "w") as f:
            json.dump(out, f, indent=1, sort_keys=True, default=repr)
            f.write("\n")
        os.replace(path + ".tmp", path)

    def report(self, part, case, message, tb=None):
        """write the replay file and print the VIOLATION line"""
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        text = repr(case)
        name = "%s-%s-%s.json" % (
            self.prop, part, hashlib.sha1(text.encode(
                "utf-8", "backslashreplace")).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            json.dump({
                "property": self.prop, "part": part, "case": text,
                "message": message, "traceback": tb, "seed": self.seed,
                "replay_cmd": "/verif/run.sh %s --replay %s" % (
                    self.prop, path),
            }, f, indent=1)
            f.write("\n")
        print("property %s part %s violated\n  case: %s\n  %s" % (
            self.prop, part, short(case, 1500), message))
        if tb:
            print(tb)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc), None
    tb = "".join(traceback.format_exception(
        type(exc), exc, exc.__traceback__)[-8:])
    return "unexpected %s: %s" % (type(exc).__name__, short(
        str(exc), 300)), tb


def _alarm(run):
    def handler(signum, frame):
        part, case = run.current or ("?", None)
        run.report(part, case, "no result within %d CPU seconds" % CPU_LIMIT)
        run.write_evidence(1)
        os._exit(1)
    return handler


def run_part(run, part, n, seed):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    last = {}
    stats = {"cases": 0, "nontrivial": 0}
    run.parts[part.name] = stats
    samples = run.samples.setdefault(part.name, [])

    def body(case):
        run.current = (part.name, case)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        ctx = Ctx()
        run.evaluations += 1
        stats["cases"] += 1
        try:
            part.fn(case, ctx)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            last["case"] = case
            last["exc"] = e
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for e in ctx.events:
            run.events["%s:%s" % (part.name, e)] += 1
        if ctx.nontrivial:
            key = hashlib.blake2b(
                (part.name + repr(case)).encode("utf-8", "backslashreplace"),
                digest_size=8).digest()
            if key not in run.nontrivial:
                run.nontrivial.add(key)
                stats["nontrivial"] += 1
                if len(samples) < 2 and stats["nontrivial"] % 7 == 3:
                    samples.append(short(ctx.note_ or case, 400))

    test = given(part.strategy())(body)
    test = settings(
        max_examples=n, database=None, deadline=None,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.target, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if "case" not in last:
            raise           # a harness error, not a finding
        msg, tb = describe(last["exc"])
        run.report(part.name, last["case"], msg, tb)
        return False
    return True


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get("findings", []) if x["property"] == prop]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    scale = 1.0
    i = 1
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            i += 1
            replay = argv[i]
        elif argv[i] == "--part":
            i += 1
            only = argv[i]
        elif argv[i] == "--scale":
            i += 1
            scale = float(argv[i])
        else:
            print("unknown argument %r" % argv[i])
            return 2
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bootstrap()
    run = Run(prop, tier, seed)
    signal.signal(signal.SIGVTALRM, _alarm(run))
    import importlib
    try:
        import warnings
        warnings.simplefilter("ignore")
        import normalize
        where = os.path.abspath(normalize.__file__)
        if not where.startswith(os.path.join(REPO, "normalize") + os.sep):
            print("harness error: tested %s, not %s" % (where, REPO))
            return 2
        mod = importlib.import_module("checks.%s" % prop.lower())
    except Exception as e:
        traceback.print_exc()
        if in_repo(e.__traceback__) and "normalize" in sys.modules:
            # the record types the check declares are all legal declarations
            run.rule = "declaring the record types of the check"
            run.evaluations = 1
            run.report("declare", None, describe(e)[0])
            run.write_evidence(1)
            return 1
        return 2
    run.rule = mod.RULE
    parts = [p for p in mod.PARTS if only in (None, p.name)]
    if replay:
        with open(replay) as f:
            data = json.load(f)
        for p in mod.PARTS:
            if p.name == data["part"]:
                case = ast.literal_eval(data["case"])
                try:
                    p.fn(case, Ctx())
                except Exception as e:
                    msg, tb = describe(e)
                    print(msg)
                    if tb:
                        print(tb)
                    print("VIOLATION property=%s replay=%s" % (prop, replay))
                    return 1
                print("replay: the property holds for this case")
                return 0
        print("no part %r" % data["part"])
        return 2
    for f in known_findings(prop):
        # each listed finding is re-run; the line is printed while it fails
        fn = getattr(mod, "FINDINGS", {}).get(f["id"])
        still = fn is None or not attempt_ok(fn)
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    sys.stdout.flush()
    tasks = []
    for p in parts:
        n = p.quick if tier == "quick" else p.thorough
        n = max(1, int(n * scale))
        shards = max(1, min(SHARDS, n // 100))
        for k in range(shards):
            tasks.append((p, k, n // shards + (1 if k < n % shards else 0)))
    ok = run_tasks(run, tasks)
    if ok is None:
        return 2
    run.write_evidence(0 if ok else 1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (
        prop, tier, seed, run.evaluations, len(run.nontrivial),
        time.time() - run.t0))
    for k, v in sorted(run.parts.items()):
        print("   %-24s %6d cases %6d non-trivial" % (
            k, v["cases"], v["nontrivial"]))
    return 0 if ok else 1


def run_tasks(run, tasks):
    """Run every (part, shard) in a forked worker, 8 at a time.  The result is
    a function of the tasks only, not of their timing: the first failing task
    in order is the one reported."""
    import pickle
    import tempfile
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % run.prop)
    pending = list(enumerate(tasks))
    running = {}
    codes = {}
    try:
        while pending or running:
            if any(codes.values()):
                # a violation: start nothing new after the failing task
                first = min(i for i, c in codes.items() if c)
                pending = [x for x in pending if x[0] < first]
            while pending and len(running) < WORKERS:
                i, (part, shard, n) = pending.pop(0)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os._exit(worker(run, part, shard, n,
                                    os.path.join(tmp, str(i))))
                running[pid] = i
            if running:
                pid, status = os.wait()
                if pid in running:
                    codes[running.pop(pid)] = status
        ok = True
        for i, task in enumerate(tasks):
            base = os.path.join(tmp, str(i))
            if i not in codes:
                continue
            out = ""
            if os.path.exists(base + ".out"):
                with open(base + ".out") as f:
                    out = f.read()
            if os.path.exists(base + ".res"):
                with open(base + ".res", "rb") as f:
                    run.merge(pickle.load(f))
            code = os.waitstatus_to_exitcode(codes[i])
            if code == 0:
                continue
            sys.stdout.write(out)
            if code != 1:
                print("harness error: part %s shard %d ended with %d" % (
                    task[0].name, task[1], code))
                return None
            ok = False
            break
        return ok
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def worker(run, part, shard, n, base):
    """in the child: returns the exit code"""
    import pickle
    code = 2
    out = open(base + ".out", "w", buffering=1)
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(out.fileno(), 1)
        os.dup2(out.fileno(), 2)
        sys.stdout = sys.stderr = out
        run.shard = shard
        ok = run_part(run, part, n, run.seed * 1000 + shard)
        with open(base + ".res", "wb") as f:
            pickle.dump(run.state(), f)
        code = 0 if ok else 1
    except BaseException:
        traceback.print_exc()
    finally:
        out.flush()
    return code


def attempt_ok(fn):
    try:
        fn()
        return True
    except Exception:
        return False
