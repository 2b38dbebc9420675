"""C23: comparison hooks replace what is compared, results are plain data."""
from hypothesis import strategies as st

from normalize import FieldSelector, MultiFieldSelector
from normalize.diff import (
    Diff, DiffInfo, DiffOptions, DiffTypes, compare_collection_iter,
    compare_record_iter, diff, diff_iter,
)
from normalize import exc

from checks.c17 import (
    DKEYS, FLAGS, NOISE, SCAL, draw_opts, empties, families, noisy, same_top,
)
from lib.diffmodel import HOOKS, KINDS, agree, reports
from lib.harness import (
    Part, attempt, check, must_not_raise, raised, same, short,
)
from lib.schema import build, dense, lit_eq, mutate

PROPERTY = "C23"
RULE = (
    "A case is a generated family of record types (collection types with an "
    "item clean-up function among them), two values of the first, the second "
    "derived from the first, options, and a set of overridden hooks of "
    "DiffOptions; or a comparison whose result is put in every form.  "
    "Non-trivial: a hook changes the result; for results, there are two "
    "reports of different kinds.")

TOP = ("r", 0)


# -- hooks ---------------------------------------------------------------------------
def options_class(hooks):
    """DiffOptions with some hooks overridden"""
    ns = {}
    for name, variant in hooks.items():
        ns[name] = override(name, HOOKS[name][variant])
    return type("MyOptions", (DiffOptions,), ns)


def override(name, fn):
    nothing = DiffOptions._nothing
    base = getattr(DiffOptions, name)
    if name in ("normalize_whitespace", "normalize_case", "normalize_unf",
                "value_is_empty"):
        return lambda self, value: fn(value)
    if name == "normalize_text":
        return lambda self, value: fn(base(self, value))
    if name == "items_equal":
        return lambda self, a, b: fn(a, b)
    if name == "normalize_val":
        def normalize_val(self, value=nothing):
            value = base(self, value)
            return value if value is nothing else fn(value)
        return normalize_val
    if name == "normalize_slot":
        def normalize_slot(self, value=nothing, prop=None):
            value = base(self, value, prop)
            return value if value is nothing else fn(value, prop.name)
        return normalize_slot
    if name == "normalize_object_slot":
        def normalize_object_slot(self, value=nothing, prop=None, obj=None):
            if value is not nothing:
                there = set(n for n in type(obj).properties if
                            n != "unknown_json_keys" and hasattr(obj, n))
                value = fn(value, there)
            return base(self, value, prop, obj)
        return normalize_object_slot
    if name == "normalize_item":
        def normalize_item(self, value=nothing, coll=None, index=None):
            if value is not nothing:
                value = fn(value, len(coll), index)
            return base(self, value, coll, index)
        return normalize_item
    if name == "is_filtered":
        return lambda self, prop, fs: fn(prop.name, tuple(fs)) or \
            base(self, prop, fs)
    if name == "record_id":
        return lambda self, record, type_=None, selector=None: fn(
            base(self, record, type_, selector))
    raise ValueError(name)


def cia_types(draw, s):
    """give some collection types of simple items a clean-up function"""
    def go(t):
        if t[0] in "ld":
            if t[1][0] == "s" and t[2] in ("sub", "plain"):
                if draw(st.booleans()):
                    return (t[0], t[1], "cia")
                return t
            return (t[0], go(t[1]), t[2])
        return t
    for r in s["recs"]:
        for f in r["fields"]:
            f["t"] = go(f["t"])
    return s


@st.composite
def hookeds(draw):
    s = cia_types(draw, draw(families()))
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    b = a
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(sorted(NOISE) + ["empty", "edit",
                                                    "edit"]))
        if how in NOISE:
            b = noisy(draw, s, TOP, b, NOISE[how], 2)
        elif how == "empty":
            b = empties(draw, s, TOP, b)
        else:
            b = mutate(s, TOP, b, draw, SCAL)
    hooks = {}
    for n in draw(st.lists(st.sampled_from(sorted(HOOKS)), max_size=3,
                           min_size=1, unique=True)):
        hooks[n] = draw(st.sampled_from(sorted(HOOKS[n])))
    return (s, a, same_top(a, b), draw_opts(draw), hooks)


def hooked(case, ctx):
    s, va, vb, opts, hooks = case
    B = build(s)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    cls = options_class(hooks)
    what = "diff of %s with %s (%s, overriding %s)" % (
        short(a), short(b), opts, hooks)
    more = dict(opts, unchanged=True)
    full = must_not_raise(lambda: reports(diff_iter(
        a, b, options=cls(**more))), what)
    agree(s, TOP, va, vb, dict(more, hooks=hooks), full,
          what + " with unchanged=True")
    got = must_not_raise(lambda: reports(diff_iter(
        a, b, options=cls(**opts))), what)
    want = full if opts.get("unchanged") else [
        x for x in full if x[0] != "NO_CHANGE"]
    same(sorted(map(repr, got)), sorted(map(repr, want)), what)
    check(lit_eq(B.un(TOP, a), va) and lit_eq(B.un(TOP, b), vb),
          "%s: changed by it", what)
    plain = reports(diff_iter(a, b, **opts))
    ctx.hit(hooks and sorted(map(repr, plain)) != sorted(map(repr, got)))
    for n in hooks:
        ctx.event(n)


# -- results -------------------------------------------------------------------------
@st.composite
def results(draw):
    s = draw(families())
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    b = a
    for _ in range(draw(st.integers(0, 3))):
        b = mutate(s, TOP, b, draw, SCAL)
    return (s, a, same_top(a, b), draw_opts(draw))


SYMBOLS = {"ADDED": 2, "REMOVED": 3, "MODIFIED": 4, "MOVED": 5,
           "NO_CHANGE": 1}
NAMES = {"NO_CHANGE": "UNCHANGED"}


def result(case, ctx):
    s, va, vb, opts = case
    B = build(s)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    what = "diff of %s with %s (%s)" % (short(a), short(b), opts)
    want = sorted(map(repr, must_not_raise(
        lambda: reports(diff_iter(a, b, **opts)), what)))
    name = type(a).__name__
    d = diff(a, b, **opts)
    for how, got in [
            ("diff()", d), ("Record.diff()", a.diff(b, **opts)),
            ("diff(options)", diff(a, b, options=DiffOptions(**opts))),
            ("Record.diff_iter()", a.diff_iter(b, **opts)),
            ("Record.diff_iter(options)", a.diff_iter(
                b, options=DiffOptions(**opts))),
            ("compare_record_iter", compare_record_iter(
                a, b, options=DiffOptions(**opts)))]:
        if isinstance(got, Diff):
            same((got.base_type_name, got.other_type_name), (name, name),
                 "type names of %s" % what)
        same(sorted(map(repr, reports(got))), want, "%s, by %s" % (what, how))
    # under a prefix
    pa, pb = FieldSelector(["p", 1]), FieldSelector(["q"])
    got = reports(compare_record_iter(a, b, pa, pb, DiffOptions(**opts)))
    same(sorted(map(repr, ((k, x[2:], y[1:]) for k, x, y in got))), want,
         what + " under a prefix")
    check(all(x[:2] == ("p", 1) and y[:1] == ("q",) for k, x, y in got),
          "%s: not under the prefix: %s", what, short(got))
    same((list(pa), list(pb)), (["p", 1], ["q"]), "the prefix")
    if opts:
        r = attempt(lambda: list(diff_iter(
            a, b, options=DiffOptions(), **opts)))
        check(raised(r, exc.DiffOptionsException), "%s: both options and "
              "keywords gives %s", what, short(r))
    # each report
    for x in d:
        describe(x, what)
    text = must_not_raise(lambda: str(d), "text of %s" % what)
    check("[%s]" % name in text and "%d diff(s)" % len(d) in text,
          "text of %s is %s", what, text)
    # ... which sums up what changed where
    where = {}
    for x in d:
        kind = KINDS[x.diff_type.canonical_name]
        apart = kind == "MODIFIED" and tuple(x.base) != tuple(x.other)
        for prefix, fs in {
                "ADDED": [("+NEW", x.other)], "REMOVED": [("-OLD", x.base)],
                "NO_CHANGE": [("==X", x.base)], "MOVED": [],
                "MODIFIED": [("<->OLD", x.base), ("<+>NEW", x.other)]
                if apart else [("<>X", x.base)]}[kind]:
            where.setdefault(prefix, []).append(fs)
    pieces = ["%s(%s)" % (k, MultiFieldSelector(*v).path)
              for k, v in where.items()]
    body = text[text.index("diff(s)") + len("diff(s)"):-1]
    same(sorted(body), sorted((": " if pieces else "") + "; ".join(pieces)),
         "characters of the summary %s of %s" % (text, what))
    for piece in pieces:
        check(piece in body, "%s: %s is not in %s", what, piece, text)
    ctx.hit(len(set(x.diff_type for x in d)) > 1)
    ctx.event("%d reports" % min(5, len(d)))


def describe(x, what):
    kind = KINDS[x.diff_type.canonical_name]
    check(x.diff_type is getattr(DiffTypes, kind), "%s: type is %r", what,
          x.diff_type)
    base, other = tuple(x.base), tuple(x.other)
    text = str(x)
    check(text.startswith("<DiffInfo: %s " % NAMES.get(kind, kind)),
          "text of a report of %s: %s", what, text)
    longer = x.base if len(base) > len(other) else x.other
    check(longer.path in text, "text of a report of %s at %s/%s: %s", what,
          x.base.path, x.other.path, text)
    if base[:len(other)] != other and other[:len(base)] != base:
        check(x.base.path in text and x.other.path in text,
              "text of a report of %s at %s/%s: %s", what, x.base.path,
              x.other.path, text)
    # it can be made from its parts, whatever way the type is given
    for dt in (x.diff_type, SYMBOLS[kind], x.diff_type.canonical_name):
        y = DiffInfo(diff_type=dt, base=x.base, other=x.other)
        check(y == x and y.diff_type is x.diff_type, "%s: made again with "
              "%r: %s", what, dt, y)
        check(hash(x) == hash(y), "%s: hash of equal reports", what)
    for more in SYMBOLS.values():
        if more != SYMBOLS[kind]:
            y = DiffInfo(diff_type=more, base=x.base, other=x.other)
            check(y != x and not y == x, "%s: %s equals %s", what, x, y)
    r = attempt(DiffInfo, diff_type=x.diff_type, base=x.base)
    check(raised(r, ValueError), "%s: report without location: %s", what,
          short(r))


# -- collections, at the top -----------------------------------------------------------
@st.composite
def tops(draw):
    s = cia_types(draw, draw(families()))
    t = (draw(st.sampled_from("ld")), TOP,
         draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    if draw(st.integers(0, 2)) == 0:
        t = (t[0], ("s", draw(st.sampled_from(["int", "str"]))),
             draw(st.sampled_from(["plain", "sub", "cia"])))
    a = draw(dense(s, t, scalars=SCAL, keys=DKEYS))
    b = a
    for _ in range(draw(st.integers(0, 3))):
        b = mutate(s, t, b, draw, SCAL)
    hooks = {}
    for n in draw(st.lists(st.sampled_from(sorted(HOOKS)), max_size=2,
                           unique=True)):
        hooks[n] = draw(st.sampled_from(sorted(HOOKS[n])))
    return (s, t, a, b, draw_opts(draw), hooks)


def top(case, ctx):
    s, t, va, vb, opts, hooks = case
    B = build(s)
    a, b = B.mk(t, va), B.mk(t, vb)
    cls = options_class(hooks)
    what = "diff of %s with %s (%s, overriding %s)" % (
        short(a), short(b), opts, hooks)
    more = dict(opts, unchanged=True)
    got = must_not_raise(lambda: reports(compare_collection_iter(
        a, b, options=cls(**more))), what)
    agree(s, t, va, vb, dict(more, hooks=hooks), got, what)
    got = must_not_raise(lambda: reports(compare_collection_iter(
        a, b, options=cls(**opts))), what)
    full = must_not_raise(lambda: reports(diff_iter(
        a, b, options=cls(**opts))), what)
    same(sorted(map(repr, full)), sorted(map(repr, got)),
         what + ", as a record")
    ctx.hit(hooks and va != vb)
    ctx.event("%s %s" % (t[0], t[2]))


PARTS = [
    Part("hooked", hookeds, hooked, quick=5000),
    Part("result", results, result, quick=1500),
    Part("top", tops, top, quick=2000),
]
