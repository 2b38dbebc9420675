"""C15: diff reports a difference exactly when there is one."""
import copy

from hypothesis import strategies as st

from normalize import FieldSelector
from normalize.diff import diff_iter

from lib.diffmodel import agree, reports
from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, raised, short,
)
from lib.schema import (
    build, dense, lit_eq, make_schema, model_eq, mutate, reordered,
)

PROPERTY = "C15"
RULE = (
    "A case is a generated family of record types (nested records, typed and "
    "plain lists and dicts, primary keys, extraneous attributes), two values "
    "of its first type - the second derived from the first by 0-3 edits - "
    "and comparison options.  Non-trivial: the two differ in at most a few "
    "places and have a nested record or collection, or the second is a copy "
    "with at least three attributes or items.")

TOP = ("r", 0)
FEATURES = dict(scalars=["int", "str", "str", "bool", "float", "date"],
                items=["int", "str"], pk=0.35, req=0.0, jn=0.0, jnone=0.0)
# records in collections must be hashable, so untyped attributes hold scalars
# there; plain lists and dicts appear in families without such collections
PLAIN = dict(FEATURES, scalars=["any", "any", "str", "int"], kinds="ssr")
ANYSCALAR = {"any": st.sampled_from(
    [None, 0, 1, True, "", "a", "b", 2.5, 1.0, -0.0, False]).map(
        lambda x: ("A", x)),
    "int": st.integers(0, 3) | st.sampled_from([True, False, 2 ** 70]),
    "str": st.sampled_from(
        ["", "a", "b", "A", "a ", "ab"]), "float": st.sampled_from(
            [0.0, 1.0, 2.5, -0.0]), "date": st.sampled_from(
                [("date", 2000, 1, 1), ("date", 2001, 2, 3)])}
_plain = st.none() | st.integers(0, 3) | st.sampled_from(["", "a", "b"])
PLAINANY = dict(ANYSCALAR, any=st.one_of(
    _plain, st.lists(_plain | st.lists(_plain, max_size=2) |
             st.dictionaries(st.sampled_from("xyz"), _plain, min_size=1,
                             max_size=3), max_size=4),
    st.dictionaries(st.sampled_from(["a", "b", "c"]), _plain |
                    st.dictionaries(st.sampled_from("xy"), _plain,
                                    max_size=2), max_size=3),
).map(lambda x: ("A", x)))


DKEYS = st.sampled_from(["a", "b", "c", "k 1"])


@st.composite
def families(draw, features=FEATURES, plain=True):
    """(schema, strategies of scalars)"""
    if plain and draw(st.integers(0, 4)) == 0:
        return make_schema(draw(st.integers(4, 150)), **PLAIN), PLAINANY
    f = dict(features)
    f["scalars"] = features["scalars"] + ["any"]
    f["poly"] = draw(st.sampled_from([0.0, 0.0, 0.4]))
    return make_schema(draw(st.integers(4, 500)), **f), ANYSCALAR


FLAGS = ["ignore_ws", "ignore_case", "unicode_normal", "unchanged", "moved",
         "ignore_empty_slots", "ignore_empty_items", "extraneous",
         "fuzzy_match", "recurse"]


def flags(draw, names=FLAGS, **fixed):
    o = {n: True for n in names if draw(st.integers(0, 3)) == 0}
    for n in "ignore_ws", "unicode_normal", "fuzzy_match":
        if n in names:
            o[n] = n not in o
    return dict(o, **fixed)


def size(v):
    if isinstance(v, tuple) and v and v[0] == "R":
        return sum(size(x) for x in v[2].values())
    if isinstance(v, tuple) and v and v[0] in ("L", "D", "A"):
        return size(v[1])
    if isinstance(v, (list, dict)):
        return sum(map(size, v.values() if isinstance(v, dict) else v))
    return 1


def run_diff(a, b, opts, what):
    got = must_not_raise(
        lambda: reports(diff_iter(a, b, **opts)), what)
    same = reports(must_not_raise(lambda: a.diff(b, **opts), what))
    check(sorted(map(repr, same)) == sorted(map(repr, got)),
          "%s: diff() %s, diff_iter() %s", what, short(same), short(got))
    return got


# -- copies ------------------------------------------------------------------
@st.composite
def copies_of(draw):
    s, scal = draw(families())
    return (s, draw(dense(s, scalars=scal, keys=DKEYS)), flags(draw))


def copies(case, ctx):
    s, v, opts = case
    B = build(s)
    a, b = B.mk(TOP, v), B.mk(TOP, v)
    for other, how in ((b, "an equal record"),
                       (B.mk(TOP, reordered(v)), "one built backwards"),
                       (copy.deepcopy(a), "its copy"), (a, "itself")):
        what = "diff of %s with %s (%s)" % (short(a), how, opts)
        got = run_diff(a, other, opts, what)
        for kind, base, oth in got:
            check(kind == "NO_CHANGE" and opts.get("unchanged"),
                  "%s: %s %r %r", what, kind, base, oth)
            check(base == oth, "%s: %s %r %r", what, kind, base, oth)
    if opts.get("unchanged"):
        agree(s, TOP, v, v, opts, got, what)
    check(lit_eq(B.un(TOP, a), v), "changed by diff: %s", short(a))
    ctx.hit(size(v) > 2)
    ctx.event("size %d" % min(size(v), 9))


# -- pairs -------------------------------------------------------------------
@st.composite
def pairs_of(draw):
    s, scal = draw(families())
    a = draw(dense(s, scalars=scal, keys=DKEYS))
    if draw(st.integers(0, 7)) == 0:
        b = draw(dense(s, scalars=scal, keys=DKEYS))
    else:
        b = mutate(s, TOP, a, draw, scal, n=draw(st.integers(0, 3)))
    return (s, a, b, flags(draw, [
        "unchanged", "moved", "fuzzy_match", "recurse", "extraneous"],
        ignore_ws=False, unicode_normal=False))


def canonical(s, t, v):
    """equal for equal values up to the order of items (and to the keys of
    dict items)"""
    if t[0] == "r":
        fl = {f["n"]: f for f in s["recs"][v[1]]["fields"]}
        return [v[1]] + sorted(
            (n, canonical(s, fl[n]["t"], x))
            for n, x in v[2].items() if not fl[n].get("x"))
    if t[0] in "ld":
        items = v[1] if t[0] == "l" else list(v[1].values())
        return sorted((canonical(s, t[1], x) for x in items), key=repr)
    if isinstance(v, tuple) and v[0] == "A":
        x = v[1]
        if isinstance(x, (list, dict)):
            x = list(x) if isinstance(x, list) else list(x.values())
            return (type(v[1]).__name__, sorted((num(y) for y in x),
                                                key=repr))
        return num(x)
    return num(v)


def num(x):
    """1, 1.0 and True are equal"""
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, list):
        return [num(y) for y in x]
    if isinstance(x, dict):
        return sorted((k, num(y)) for k, y in x.items())
    return x


def resolve(x, path):
    return attempt(lambda: FieldSelector(list(path)).get(x))


def locations(a, b, got, what):
    for kind, base, other in got:
        ra, rb = resolve(a, base), resolve(b, other)
        w = "%s: %s %r %r" % (what, kind, base, other)
        if kind == "ADDED":
            check(not isinstance(rb, Raised), "%s: %r", w, rb)
            if isinstance(ra, Raised):
                # the same attribute, not set
                check(base and isinstance(base[-1], str) and
                      base[-1] == other[-1], "%s: %r", w, ra)
                ra = resolve(a, base[:-1])
            check(not isinstance(ra, Raised), "%s: %r", w, ra)
        elif kind == "REMOVED":
            check(not isinstance(ra, Raised), "%s: %r", w, ra)
            if isinstance(rb, Raised):
                check(other and isinstance(other[-1], str) and
                      base[-1] == other[-1], "%s: %r", w, rb)
                rb = resolve(b, other[:-1])
            check(not isinstance(rb, Raised), "%s: %r", w, rb)
        else:
            check(not isinstance(ra, Raised) and not isinstance(rb, Raised),
                  "%s: %r, %r", w, ra, rb)
            if kind == "MODIFIED":
                check(ra != rb, "%s: equal values %s", w, short(ra))
            if kind == "MOVED":
                check(base[-1] != other[-1], "%s", w)


SWAP = {"ADDED": "REMOVED", "REMOVED": "ADDED"}


def swapped(got):
    return sorted(repr((SWAP.get(k, k), o, b)) for k, b, o in got)


def pairs(case, ctx):
    s, va, vb, opts = case
    B = build(s)
    vb = reordered(vb)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    what = "diff of %s with %s (%s)" % (short(a), short(b), opts)
    if va[1] != vb[1]:
        got = attempt(lambda: list(diff_iter(a, b, **opts)))
        check(raised(got, TypeError), "%s: of different types, but %s",
              what, short(got))
        return
    got = run_diff(a, b, opts, what)
    if not opts["fuzzy_match"] or opts.get("recurse") or \
            opts.get("unchanged"):
        agree(s, TOP, va, vb, opts, got, what)
    else:
        # what is matched with what shows in the unchanged ones
        more = run_diff(a, b, dict(opts, unchanged=True), what)
        agree(s, TOP, va, vb, dict(opts, unchanged=True), more, what)
        check(sorted(map(repr, got)) == sorted(repr(x) for x in more if x[
            0] != "NO_CHANGE"), "%s: %s without unchanged, %s with", what,
            short(got), short(more))
    locations(a, b, got, what)
    eq = model_eq(s, TOP, va, vb)
    real = [x for x in got if x[0] not in ("NO_CHANGE", "MOVED")]
    if not opts.get("extraneous"):
        if eq:
            check(not real, "%s: equal records, but %s", what, short(real))
        elif not real:
            check(canonical(s, TOP, va) == canonical(s, TOP, vb),
                  "%s: no difference reported", what)
            ctx.event("reordered")
    if not opts["fuzzy_match"] or opts.get("recurse"):
        back = run_diff(b, a, opts, "reverse " + what)
        check(swapped(back) == sorted(map(repr, got)),
              "%s: %s, but the other way round %s", what, short(got),
              short(back))
    check(lit_eq(B.un(TOP, a), va) and lit_eq(B.un(TOP, b), vb),
          "%s: changed by it", what)
    ctx.hit(size(va) > 1 and 0 < len(real) < 5)
    ctx.event("equal" if eq else "%d differences" % min(len(real), 5))


PARTS = [
    Part("copies", copies_of, copies, quick=1500),
    Part("pairs", pairs_of, pairs, quick=5000),
]
