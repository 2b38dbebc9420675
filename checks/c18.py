"""C18: visiting maps every selected slot once, and casting reverses it."""
import collections

from hypothesis import strategies as st

from normalize import (
    FieldSelector, ListProperty, MultiFieldSelector, Property, Record,
)
from normalize.coll import DictCollection, ListCollection
from normalize.record.json import JsonRecord
from normalize.visitor import VisitorPattern

from lib.harness import (
    Part, check, must_not_raise, must_raise, short, strict_eq,
)
from lib.schema import (
    build, clone, dense, json_any, lit_eq, make_schema, values,
)

PROPERTY = "C18"
RULE = (
    "A case is a generated family of record types (nested records, lists and "
    "dicts of records, values and collections, plain, JSON and named "
    "collection types, untyped, extraneous attributes), a value and options "
    "or a filter; or the types alone.  Non-trivial: the value has at least "
    "three leaves in more than one attribute or item, or the type has at "
    "least two levels.")

TOP = ("r", 0)
FEATURES = dict(json=0.4, jn=0.1, jnone=0.03, req=0.0, x=0.2,
                kinds="ssrrlldd", items=["int", "str", "any"],
                scalars=["int", "str", "any", "bool", "float", "dt"])
SCAL = {"str": st.sampled_from(["", "a", "b", " ", "x y"]),
        "any": (json_any | st.none() | st.just("")).map(lambda x: ("A", x))}
GONE = type("Gone", (), {"__repr__": lambda self: "(gone)"})()


@st.composite
def families(draw, **features):
    return make_schema(draw(st.integers(0, 500)), **dict(FEATURES, **features))


# -- what a visit should give ------------------------------------------------------
class Filter(object):
    """paths; None stands for every item"""
    def __init__(self, paths):
        self.paths = [tuple(p) for p in paths]

    def __contains__(self, path):
        def ok(p):
            return all(a is None or strict_eq(a, b) for a, b in zip(p, path))
        return any(ok(p) for p in self.paths)


class Expected(object):
    """result of a visit and the calls of the hook, on literals"""
    def __init__(self, B, opts, paths=None, enc=None):
        self.B, self.s = B, B.schema
        self.o = dict(dict(extraneous=False, ignore_none=True,
                           ignore_empty_string=False,
                           apply_empty_slots=False), **opts)
        self.filter = Filter(paths) if paths is not None else None
        self.enc = enc or (lambda x: x)
        self.calls = []

    def wanted(self, path, x=False):
        return (self.o["extraneous"] or not x) and (
            self.filter is None or path in self.filter)

    def dropped(self, r):
        return r is None and self.o["ignore_none"] or \
            isinstance(r, str) and r == "" and self.o["ignore_empty_string"]

    def leaf(self, t, v, prop, path):
        self.calls.append((path, prop, v))
        return self.enc(self.B.mk(t, v))

    def go(self, t, v, path=()):
        if t[0] == "r":
            return self.record(t, v, path)
        if t[0] == "l" or t[0] == "d":
            out = []
            for k, x in (enumerate(v[1]) if t[0] == "l" else v[1].items()):
                p = path + (k,)
                if t[1][0] == "s":
                    if self.filter is not None and p not in self.filter:
                        continue
                    r = self.leaf(t[1], x, None, p)
                else:
                    r = self.go(t[1], x, p)
                if not self.dropped(r):
                    out.append((k, r))
            out = [r for _, r in out] if t[0] == "l" else dict(out)
            if t[2] in ("json", "jsub") and self.wanted(
                    path + ("unknown_json_keys",), True):
                out = {"values": out}
                self.gone("unknown_json_keys", path, out)
            return out
        return self.leaf(t, v, None, path)

    def gone(self, name, path, out):
        """an attribute which is not set"""
        if self.o["apply_empty_slots"]:
            self.calls.append((path + (name,), name, GONE))
            if not self.dropped(self.enc(None)):
                out[name] = self.enc(None)

    def record(self, t, v, path):
        out = {}
        for f in self.B.fields(t[1]):
            p = path + (f["n"],)
            if not self.wanted(p, f.get("x")):
                continue
            if f["n"] not in v[2]:
                self.gone(f["n"], path, out)
                continue
            x = v[2][f["n"]]
            if f["t"][0] == "s":
                r = self.leaf(f["t"], x, f["n"], p)
            else:
                r = self.go(f["t"], x, p)
            if not self.dropped(r):
                out[f["n"]] = r
        if self.s["recs"][t[1]]["json"] and self.wanted(
                path + ("unknown_json_keys",), True):
            if len(v) > 3:
                out["unknown_json_keys"] = self.leaf(
                    ("s", "any"), ("A", v[3]), "unknown_json_keys",
                    path + ("unknown_json_keys",))
            else:
                self.gone("unknown_json_keys", path, out)
        return out


def recorder(enc=None, dec=None):
    calls = []

    class Recorder(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            calls.append((visitor.field_selector, prop, value))
            if isinstance(value, (AttributeError, KeyError)):
                value = None
            return enc(value) if enc else value

        @classmethod
        def reverse(cls, value, prop, visitor):
            return dec(value) if dec else value

    Recorder.calls = calls
    return Recorder


def compare_calls(B, obj, got, want, what):
    def key(path, prop):
        return (tuple((type(x).__name__, x) for x in path), prop)
    have = collections.Counter()
    by = {}
    for fs, prop, value in got:
        check(isinstance(fs, FieldSelector), "%s: context %s", what, short(fs))
        k = key(tuple(fs.selectors), prop.name if prop else None)
        have[k] += 1
        by[k] = (fs, value)
    exp = collections.Counter(key(p, n) for p, n, _ in want)
    check(have == exp, "%s: called for %s, expected %s", what,
          short(sorted(map(repr, (have - exp).elements())), 300),
          short(sorted(map(repr, (exp - have).elements())), 300))
    for p, n, v in want:
        fs, value = by[key(p, n)]
        if v is GONE:
            check(isinstance(value, (AttributeError, KeyError)),
                  "%s: called with %s for %s, which is not set", what,
                  short(value), fs)
            continue
        at = must_not_raise(lambda: fs.get(obj), what + ": %s" % fs)
        check(at is value or strict_eq(at, value), "%s: called with %s for %s, "
              "which is %s", what, short(value), fs, short(at))


def leaves(want):
    return sum(1 for x in want if x[2] is not GONE)


OPTS = ["extraneous", "ignore_none", "ignore_empty_string",
        "apply_empty_slots"]


@st.composite
def visits(draw):
    s = draw(families())
    v = draw(dense(s, scalars=SCAL))
    opts = {n: draw(st.booleans()) for n in OPTS if draw(st.booleans())}
    return (s, v, opts)


def visit(case, ctx):
    s, v, opts = case
    B = build(s)
    obj = B.mk(TOP, v)
    what = "visit(%s, %s)" % (short(obj), opts)
    exp = Expected(B, opts)
    want = exp.go(TOP, v)
    P = recorder()
    got = must_not_raise(lambda: P.visit(obj, **opts), what)
    check(strict_eq(got, want), "%s is %s, expected %s", what, short(got),
          short(want))
    compare_calls(B, obj, P.calls, exp.calls, what)
    check(lit_eq(B.un(TOP, obj), v), "%s: changed the object", what)
    got2 = must_not_raise(
        lambda: VisitorPattern.visit(obj, B.cls(TOP), **opts), what)
    check(strict_eq(got2, want), "%s with the type is %s, expected %s", what,
          short(got2), short(want))
    ctx.hit(leaves(exp.calls) > 2)


# -- and back --------------------------------------------------------------------------
def wrap(x):
    return None if x is None else {"v": x}


def unwrap(x):
    return x["v"] if isinstance(x, dict) and list(x) == ["v"] else x


def text(x):
    return x if x is None else [x, type(x).__name__]


def untext(x):
    return x if x is None else x[0]


CODES = {"plain": (None, None), "wrap": (wrap, unwrap), "text": (text, untext)}


@st.composite
def casts(draw):
    s = draw(families(req=0.1))
    for rec in s["recs"]:
        for f in rec["fields"]:
            if f.get("x"):
                f.pop("req", None)
    v = draw(dense(s, scalars=SCAL))
    return (s, v, draw(st.sampled_from(sorted(CODES))),
            draw(st.sampled_from([False, False, True])),
            draw(st.sampled_from([True, True, False])))


def survive(s, t, v, extraneous, none):
    """what of a value is left after a visit and a cast"""
    def keep(x):
        return none or not (isinstance(x, tuple) and x == ("A", None))
    if t[0] == "r":
        out = {}
        for f in s["recs"][t[1]]["fields"]:
            if f["n"] in v[2] and (extraneous or not f.get("x")) and \
                    keep(v[2][f["n"]]):
                out[f["n"]] = survive(s, f["t"], v[2][f["n"]], extraneous,
                                      none)
        return ("R", t[1], out)
    if t[0] == "l":
        return ("L", [survive(s, t[1], x, extraneous, none)
                      for x in v[1] if keep(x)])
    if t[0] == "d":
        return ("D", {k: survive(s, t[1], x, extraneous, none)
                      for k, x in v[1].items() if keep(x)})
    return v


def cast(case, ctx):
    s, v, code, extraneous, ignore_none = case
    B = build(s)
    obj = B.mk(TOP, v)
    enc, dec = CODES[code]
    P = recorder(enc, dec)
    opts = {}
    if extraneous:
        opts["extraneous"] = True
    if not ignore_none:
        opts["ignore_none"] = False
    what = "visit(%s, %s) with %s hooks" % (short(obj), opts, code)
    out = must_not_raise(lambda: P.visit(obj, **opts), what)
    before = clone(out)
    back = must_not_raise(lambda: P.cast(B.cls(TOP), out, **opts),
                          "cast of " + what)
    want = survive(s, TOP, v, extraneous, not ignore_none)
    got = B.un(TOP, back, "cast of " + what)
    check(lit_eq(got, want), "cast of %s is %s, expected %s", what,
          short(got), short(want))
    check(strict_eq(out, before), "cast of %s changed its input to %s", what,
          short(out))
    plain = survive(s, TOP, v, True, True)
    if lit_eq(survive(s, TOP, v, True, False), plain):
        check(back == obj and not back != obj, "cast of %s is %s, not equal",
              what, short(back))
    ctx.hit(len(repr(v)) > 40)
    ctx.event(code)


# -- filters -----------------------------------------------------------------------------
@st.composite
def filtereds(draw):
    s = draw(families(jn=0.0, jnone=0.0))
    v = draw(dense(s, scalars=SCAL))
    n = draw(st.integers(1, 3))
    paths = [draw_path(draw, s, v) for _ in range(n)]
    opts = {n: draw(st.booleans()) for n in OPTS if not draw(
        st.integers(0, 2))}
    return (s, v, paths, draw(st.booleans()), opts)


def draw_path(draw, s, v):
    path, t = [], TOP
    while True:
        if t[0] == "r":
            fields = s["recs"][t[1]]["fields"]
            if v is not None and draw(st.integers(0, 5)):
                fields = [f for f in fields if f["n"] in v[2]] or fields
            f = fields[draw(st.integers(0, len(fields) - 1))]
            path.append(f["n"])
            t = f["t"]
            v = v[2].get(f["n"]) if v is not None else None
        elif t[0] == "l":
            m = len(v[1]) if v is not None else 0
            i = draw(st.sampled_from([None] + list(range(max(m, 1)))))
            path.append(i)
            t = t[1]
            v = v[1][i or 0] if m else None
        elif t[0] == "d":
            keys = list(v[1]) if v is not None else []
            k = draw(st.sampled_from([None] + (keys or ["a"])))
            path.append(k)
            t = t[1]
            v = v[1][k if k is not None else keys[0]] if keys else None
        if t[0] == "s" or draw(st.integers(0, 3)) == 0:
            return path


def mixes(paths):
    """does a wildcard stand beside an item at the same place (which multi
    selectors do not allow), or items beside attributes of other names?"""
    for i, p in enumerate(paths):
        for q in paths[:i]:
            n = 0
            while n < min(len(p), len(q)) and strict_eq(p[n], q[n]):
                n += 1
            if n < min(len(p), len(q)) and None in (p[n], q[n]):
                return True
    return False


def filtered(case, ctx):
    s, v, paths, asmfs, opts = case
    if mixes(paths):
        return
    B = build(s)
    obj = B.mk(TOP, v)
    flt = MultiFieldSelector(*paths) if asmfs else [list(p) for p in paths]
    what = "visit(%s, filter=%s, %s)" % (short(obj), paths, opts)
    exp = Expected(B, opts, paths)
    want = exp.go(TOP, v)
    P = recorder()
    key = "filter" if len(paths) % 2 else "visit_filter"
    got = must_not_raise(lambda: P.visit(obj, **dict(opts, **{key: flt})),
                         what)
    compare_calls(B, obj, P.calls, exp.calls, what)
    check(strict_eq(pruned(got), pruned(want)), "%s is %s, expected %s", what,
          short(got), short(want))
    check(lit_eq(B.un(TOP, obj), v), "%s: changed the object", what)
    ctx.hit(leaves(exp.calls) > 0)
    ctx.event("%d leaves" % min(leaves(exp.calls), 4))


def pruned(x):
    """without empty containers (what is outside the filter may be left as an
    empty one)"""
    if isinstance(x, dict):
        out = {k: pruned(y) for k, y in x.items()}
        return {k: y for k, y in out.items() if not bare(y)}
    if isinstance(x, list):
        return [y for y in map(pruned, x) if not bare(y)]
    return x


def bare(x):
    return isinstance(x, (dict, list)) and not x


# -- types ---------------------------------------------------------------------------------
@st.composite
def types(draw):
    s = draw(families(scalars=["int", "str", "any", "bool", "float", "dt",
                               "date", "num"]))
    v = draw(st.none() | values(s, scalars=SCAL))
    opts = {"extraneous": True} if draw(st.booleans()) else {}
    return (s, v, opts)


def reflected(B, t, extraneous, name=None):
    if t[0] == "r":
        out = {"name": B.cls(t).__name__}
        props = {}
        for f in B.fields(t[1]):
            if f.get("x") and not extraneous:
                continue
            props[f["n"]] = reflected(B, f["t"], extraneous, f["n"])
        if extraneous and B.schema["recs"][t[1]]["json"]:
            props["unknown_json_keys"] = {"name": "unknown_json_keys"}
        if props:
            out["properties"] = props
        return out
    if t[0] in "ld":
        out = {"name": B.cls(t).__name__,
               "itemtype": reflected(B, t[1], extraneous)}
        if extraneous and t[2] in ("json", "jsub"):
            out["properties"] = {
                "unknown_json_keys": {"name": "unknown_json_keys"}}
        return out
    py = B.cls(t)
    if name is None:
        return {"name": py.__name__}
    if t[1] == "any":
        return {"name": name}
    return {"name": name,
            "type": "Number" if t[1] == "num" else py.__name__}


def reflect(case, ctx):
    s, v, opts = case
    B = build(s)
    cls = B.cls(TOP)
    obj = cls if v is None else B.mk(TOP, v)
    what = "reflect(%s, %s)" % (short(obj), opts)
    got = must_not_raise(lambda: VisitorPattern.reflect(obj, **opts), what)
    want = reflected(B, TOP, opts.get("extraneous", False))
    check(strict_eq(got, want), "%s is %s, expected %s (schema %s)", what,
          short(got, 600), short(want, 600), short(s))
    if v is not None:
        check(lit_eq(B.un(TOP, obj), v), "%s: changed the object", what)
    ctx.hit(len(s["recs"]) > 1)


# -- unions, sub-classes, collections with attributes, stopping ------------------------------
class Alpha(Record):
    n = Property(isa=int)
    t = Property(isa=str)


class Beta(Record):
    t = Property(isa=str)
    kids = ListProperty(of=Alpha)


class AlphaSub(Alpha):
    more = Property(isa=int)


class AlphaList(ListCollection):
    itemtype = Alpha


class Named(ListCollection):
    itemtype = Alpha
    title = Property(isa=str)
    note = Property(isa=str, extraneous=True)


class NamedDict(DictCollection):
    itemtype = int
    title = Property(isa=str)


class Owner(Record):
    u = Property(isa=(Alpha, Beta, str, int))
    w = Property(isa=(int, type(None)))
    c = Property(isa=(AlphaList, str))
    named = Property(isa=Named)
    nd = Property(isa=NamedDict)
    free = Property()


class JOwner(JsonRecord):
    u = Property(isa=(Beta, Alpha, str, int))
    w = Property(isa=(int, type(None)))
    c = Property(isa=(AlphaList, str))
    named = Property(isa=Named)
    nd = Property(isa=NamedDict)
    free = Property()


alphas = st.fixed_dictionaries({}, optional={
    "n": st.integers(0, 3), "t": st.sampled_from(["", "a"])}).map(
        lambda d: ("Alpha", d))
subs = st.fixed_dictionaries({"more": st.integers(0, 3)}, optional={
    "n": st.integers(0, 3), "t": st.sampled_from(["", "a"])}).map(
        lambda d: ("AlphaSub", d))
betas = st.fixed_dictionaries({}, optional={
    "t": st.sampled_from(["", "a"]), "kids": st.lists(alphas, max_size=2)
}).map(lambda d: ("Beta", d))
plainv = st.integers(0, 3) | st.sampled_from(["", "a"])


@st.composite
def specials(draw):
    attrs = draw(st.fixed_dictionaries({}, optional={
        "u": alphas | betas | plainv,
        "w": st.integers(0, 2) | st.none(),
        "c": st.lists(alphas, max_size=2).map(lambda x: ("AlphaList", x)) |
        st.sampled_from(["", "text"]),
        "named": st.tuples(st.just("Named"), st.lists(alphas, max_size=3),
                           st.fixed_dictionaries({}, optional={
                               "title": st.sampled_from(["", "x"]),
                               "note": st.just("n")})),
        "nd": st.tuples(st.just("NamedDict"), st.dictionaries(
            st.sampled_from(["a", "b"]), st.integers(0, 3)),
            st.fixed_dictionaries({}, optional={"title": st.just("y")})),
        "free": alphas | betas | plainv | st.lists(plainv, max_size=2),
    }))
    return (draw(st.sampled_from(["Owner", "JOwner"])), attrs,
            {n: draw(st.booleans()) for n in OPTS[:3]
             if draw(st.booleans())})


def make(v):
    if isinstance(v, tuple):
        cls = globals()[v[0]]
        if v[0] in ("AlphaList", "Named", "NamedDict"):
            vals = [make(x) for x in v[1]] if isinstance(v[1], list) \
                else dict(v[1])
            return cls(values=vals, **(v[2] if len(v) > 2 else {}))
        return cls(**{k: make(x) for k, x in v[1].items()})
    if isinstance(v, list):
        return [make(x) for x in v]
    return v


def shown(v, opts):
    def keep(x):
        return not (x is None and opts.get("ignore_none", True) or
                    isinstance(x, str) and x == "" and
                    opts.get("ignore_empty_string"))
    if not isinstance(v, tuple):
        return v
    if v[0] == "AlphaList":
        return [shown(x, opts) for x in v[1]]
    if v[0] in ("Named", "NamedDict"):
        out = {k: x for k, x in v[2].items() if keep(x) and (
            k != "note" or opts.get("extraneous"))}
        out["values"] = [shown(x, opts) for x in v[1]] if isinstance(
            v[1], list) else dict(v[1])
        return out
    out = {}
    for k, x in v[1].items():
        y = [shown(z, opts) for z in x] if isinstance(
            x, list) and k == "kids" else shown(x, opts)
        if keep(y):
            out[k] = y
    return out


def special(case, ctx):
    name, attrs, opts = case
    cls = globals()[name]
    obj = make((name, attrs))
    what = "visit(%s, %s)" % (short(obj), opts)
    want = shown((name, attrs), opts)
    got = must_not_raise(lambda: VisitorPattern.visit(obj, **opts), what)
    check(strict_eq(got, want), "%s is %s, expected %s", what, short(got),
          short(want))
    u, free = attrs.get("u"), attrs.get("free")
    first = "Alpha" if name == "Owner" else "Beta"
    # what is not a record, or of the first record type, can be told again
    if not opts and not isinstance(free, tuple) and (
            not isinstance(u, tuple) or u[0] == first and u[1]) and not (
                attrs.get("c") == ("AlphaList", [])):
        back = must_not_raise(lambda: VisitorPattern.cast(cls, got),
                              "cast of " + what)
        check(type(back) is cls and back == make((name, {
            k: x for k, x in attrs.items() if x is not None})),
            "cast of %s is %s", what, short(back))
        ctx.event("cast")
    ctx.hit(len(attrs) > 2)


@st.composite
def stops(draw):
    s = draw(families(nest=False))
    v = draw(dense(s, scalars=SCAL))
    return (s, v, draw(st.integers(0, len(s["recs"]) - 1)),
            draw(st.sampled_from(["cls", "value", "falsy"])))


def stop(case, ctx):
    s, v, k, how = case
    B = build(s)
    obj = B.mk(TOP, v)
    mark = {"value": "(stopped)", "falsy": "", "cls": None}[how]

    class P(VisitorPattern):
        @classmethod
        def unpack(cls, value, value_type, visitor):
            if value_type is B.recs[k]:
                return cls.StopVisiting if how == "cls" else \
                    cls.StopVisiting(mark)
            return super(P, cls).unpack(value, value_type, visitor)

    def want(t, v):
        if t[0] == "r":
            if t[1] == k:
                return mark
            out = {f["n"]: want(f["t"], v[2][f["n"]])
                   for f in B.fields(t[1]) if f["n"] in v[2] and
                   not f.get("x")}
            return {n: x for n, x in out.items() if x is not None}
        if t[0] == "l":
            return [y for y in [want(t[1], x) for x in v[1]]
                    if y is not None]
        if t[0] == "d":
            out = {n: want(t[1], x) for n, x in v[1].items()}
            return {n: x for n, x in out.items() if x is not None}
        return B.mk(t, v)
    what = "visit(%s) stopping at %s" % (short(obj), B.recs[k].__name__)
    got = must_not_raise(lambda: P.visit(obj), what)
    check(strict_eq(got, want(TOP, v)), "%s is %s, expected %s", what, short(got),
          short(want(TOP, v)))
    ctx.hit(k > 0)


# -- what is not a record ------------------------------------------------------------------
def aliens(case, ctx):
    kind, v = case
    if kind == "visit":
        must_raise(TypeError, lambda: VisitorPattern.visit(v),
                   "visit(%s)" % short(v))
    elif kind == "reflect":
        must_raise(TypeError, lambda: VisitorPattern.reflect(type(v)),
                   "reflect(%s)" % short(type(v)))
    else:
        for t in Owner, Named, AlphaList, NamedDict:
            if isinstance(v, dict) and t is not Named or isinstance(
                    v, list) and t is AlphaList:
                continue
            must_raise(Exception, lambda: VisitorPattern.cast(t, v),
                       "cast(%s, %s)" % (t.__name__, short(v)))
    ctx.hit()


PARTS = [
    Part("visit", visits, visit, quick=2500),
    Part("cast", casts, cast, quick=2500),
    Part("filter", filtereds, filtered, quick=3000),
    Part("reflect", types, reflect, quick=800),
    Part("special", specials, special, quick=1500),
    Part("stop", stops, stop, quick=800),
    Part("aliens", lambda: st.tuples(
        st.sampled_from(["visit", "reflect", "cast"]),
        st.integers() | st.text(max_size=2) | st.none() | st.booleans()),
        aliens, quick=60),
]
