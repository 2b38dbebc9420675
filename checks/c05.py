"""C05: record equality, hashing and repr obey their laws."""
from copy import deepcopy as clone
import datetime

from hypothesis import strategies as st

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, raised, same, short,
)
from lib.decl import UNSET
from lib.schema import (
    build, drop_extraneous, lit_eq, make_schema, model_eq, mutate, reordered,
    schemas, values, walk,
)

from normalize import Property, Record
from normalize.coll import dict_of, list_of

PROPERTY = "C05"
RULE = (
    "A case is a generated family of record types (nested records, typed "
    "lists/dicts, primary keys, extraneous, renamed and untyped attributes) "
    "and values of its first type: one at random and others derived from it "
    "by 0-2 small edits.  Non-trivial: the values differ in at most two "
    "places, or the value compared has a nested record or collection.")

TOP = ("r", 0)


@st.composite
def triples(draw):
    s = draw(schemas(600, poly=draw(st.sampled_from([0.0, 0.3]))))
    a = draw(values(s))
    b = mutate(s, TOP, a, draw, n=draw(st.integers(0, 2)))
    c = draw(st.sampled_from(["a", "b", "new"]))
    c = mutate(s, TOP, a if c == "a" else b, draw, n=1) if c != "new" \
        else draw(values(s))
    return (s, a, b, c)


def identity(s, t, v, B):
    """what identifies a value: of a record its primary key or else all
    attributes by name, of a collection its items"""
    if t[0] == "s":
        return B.mk(t, v)
    if t[0] == "l":
        return tuple(identity(s, t[1], x, B) for x in v[1])
    if t[0] == "d":
        return tuple(identity(s, t[1], v[1][k], B) for k in sorted(
            v[1], key=repr))
    rec = s["recs"][t[1]]
    types = {f["n"]: f["t"] for f in rec["fields"]}
    names = rec["pk"] or sorted(
        f["n"] for f in rec["fields"] if not f.get("x"))
    return tuple(
        None if n not in v[2] else identity(s, types[n], v[2][n], B)
        for n in names)


def unhashable(x):
    return raised(attempt(hash, x))


def laws(case, ctx):
    s, a, b, c = case
    B = build(s)
    lits = [a, b, c]
    objs = [B.mk(TOP, v) for v in lits]
    again = [B.mk(TOP, reordered(v)) for v in lits]
    for i in range(3):
        check(objs[i] == objs[i], "x == x is false for %s", short(objs[i]))
        check(not (objs[i] != objs[i]), "x != x for %s", short(objs[i]))
        check(objs[i] == again[i] and not (objs[i] != again[i]),
              "two records built from the same values differ: %s",
              short(objs[i]))
        for j in range(3):
            want = model_eq(s, TOP, lits[i], lits[j])
            check((objs[i] == objs[j]) is want,
                  "== gives %s, expected %s, for %s and %s", not want, want,
                  short(objs[i]), short(objs[j]))
            check((objs[i] != objs[j]) is (not want),
                  "!= gives %s, expected %s, for %s and %s", want, not want,
                  short(objs[i]), short(objs[j]))
    ids = [identity(s, ("r", v[1]), v, B) for v in lits]
    hashes = [attempt(hash, o) for o in objs]
    rehash = [attempt(hash, o) for o in again]
    pk = s["recs"][0]["pk"]
    for i in range(3):
        h = hashes[i]
        if isinstance(h, Raised):
            check(unhashable(ids[i]), "hash() %r for %s", h,
                  short(objs[i]))
            check(raised(rehash[i]), "hash raised once, then did not")
            continue
        check(not unhashable(ids[i]), "%s has a hash", short(objs[i]))
        check(h == rehash[i], "hash differs between equal records %s",
              short(objs[i]))
        check(h == attempt(hash, objs[i]), "hash is not stable")
        for j in range(3):
            if isinstance(hashes[j], Raised):
                continue
            if objs[i] == objs[j]:
                check(h == hashes[j], "equal records, different hashes: "
                      "%s and %s", short(objs[i]), short(objs[j]))
            if pk and lits[i][1] == lits[j][1] == 0 and [(n in lits[i][2], lits[i][2].get(n)) for n in pk] == [
                    (n in lits[j][2], lits[j][2].get(n)) for n in pk]:
                check(h == hashes[j], "same key %s, different hashes: "
                      "%s and %s", pk, short(objs[i]), short(objs[j]))
                ctx.event("same key")
    # usable in sets and as dict keys
    if not any(isinstance(h, Raised) for h in hashes):
        classes = []
        for v in lits:
            if not any(model_eq(s, TOP, v, w) for w in classes):
                classes.append(v)
        check(len(set(objs)) == len(classes),
              "set of %s has %d members, expected %d", short(objs),
              len(set(objs)), len(classes))
    for i in range(3):
        # comparing and hashing changed nothing
        check(lit_eq(B.un(TOP, objs[i]), lits[i]),
              "changed by comparing: %s", short(objs[i]))
        for other in (None, 1, "x", {}, [], lits[i][2], object()):
            check(not (objs[i] == other) and objs[i] != other,
                  "%s equals %s", short(objs[i]), short(other))
    ctx.hit(model_eq(s, TOP, a, b) or model_eq(s, TOP, a, c) or
            any(t[0] != "s" for p, t, v, f in walk(s, TOP, a) if p))
    ctx.event("equal" if model_eq(s, TOP, a, b) else "different")


# -- every item type pair: equality of records of different types ------------
@st.composite
def other_types(draw):
    i = draw(st.integers(0, 200))
    s = make_schema(i)
    return (i, draw(values(s)))


def types(case, ctx):
    i, v = case
    s = make_schema(i)
    # the same declarations again, as other classes
    from lib.schema import Built
    one, two = build(s), _twin(i, Built)
    a, b = one.mk(TOP, v), two.mk(TOP, v)
    check(a != b and not (a == b) and b != a and not (b == a),
          "records of different types compare equal: %s, %s",
          short(a), short(b))
    # a subclass
    cls = _sub(i, one)
    c = cls(**dict((f["n"], one.mk(f["t"], v[2][f["n"]]))
                   for f in one.fields(0) if f["n"] in v[2]))
    check(a != c and not (a == c) and not (c == a) and c != a,
          "record equals one of a subclass: %s, %s", short(a), short(c))
    # records of every type with as little as possible set, and subclasses
    # with an attribute of their own
    for k in range(len(s["recs"])):
        a = attempt(lambda: one.recs[k]())
        if isinstance(a, Raised):       # something is required
            continue
        for sub in _own(i, k, one):
            for more in ({}, {"zz": 1}):
                c = must_not_raise(lambda: sub(**more), "subclass")
                check(a != c and not (a == c) and not (c == a) and c != a,
                      "record equals one of a subclass: %s, %s",
                      short(a), short(c))
                check(c == sub(**more) and not c != sub(**more),
                      "record of a subclass: %s is not equal", short(c))
    ctx.hit(bool(v[2]))


_twins, _subs, _owns = {}, {}, {}


def _own(i, k, built):
    base = built.recs[k]
    if (i, k) not in _owns or _owns[i, k][0].__mro__[1] is not base:
        own = type(base)("OwnA", (base,), {
            "__module__": __name__, "zz": Property()})
        _owns[i, k] = [own, type(base)("OwnB", (own,), {
            "__module__": __name__})]
    return _owns[i, k]


def _twin(i, cls):
    if i not in _twins:
        _twins[i] = cls(make_schema(i))
    return _twins[i]


def _sub(i, built):
    if i not in _subs or _subs[i].__mro__[1] is not built.recs[0]:
        _subs[i] = type(built.recs[0])(
            "Sub%d" % i, (built.recs[0],), {"__module__": __name__})
    return _subs[i]


# -- collections ---------------------------------------------------------------
@st.composite
def colls(draw):
    item = draw(st.sampled_from([("s", "int"), ("s", "str"), ("r", 0)]))
    kind = draw(st.sampled_from("ld"))
    s = draw(schemas(30))
    t = (kind, item, draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    a = draw(values(s, t))
    b = mutate(s, t, a, draw, n=draw(st.integers(0, 2)))
    return (s, t, a, b)


def collections(case, ctx):
    s, t, a, b = case
    B = build(s)
    x, y = B.mk(t, a), B.mk(t, b)
    want = model_eq(s, t, a, b)
    for p, q in ((x, y), (y, x)):
        check((p == q) is want, "collections %s and %s: == gives %s",
              short(p), short(q), not want)
        check((p != q) is not want, "collections %s and %s: != gives %s",
              short(p), short(q), want)
    check(x == x and x == B.mk(t, a), "collection differs from its rebuild")
    # against the equivalent plain container
    plain = [B.mk(t[1], v) for v in b[1]] if t[0] == "l" else {
        k: B.mk(t[1], v) for k, v in b[1].items()}
    check((x == plain) is want and (x != plain) is not want,
          "collection %s == %s gives %s", short(x), short(plain), not want)
    # ... of which one value is not an item at all
    if t[1] != ("s", "str"):
        for alien in (object(), "no item", [1], {"q": 2}):
            if t[1][0] == "r" and isinstance(alien, dict):
                continue
            strange = plain + [alien] if t[0] == "l" else dict(
                plain, alien=alien)
            r = attempt(lambda: (x == strange, x != strange))
            check(r == (False, True), "collection %s compared with %s: %s",
                  short(x), short(strange), short(r))
    other = (t[0], ("s", "float"), t[2])
    check(x != B.mk(other, ("L", []) if t[0] == "l" else ("D", {})),
          "equal to a collection of another item type")
    # ... not even of one all of the items are of, or of an other kind
    for o in (list_of(object)(list(B.mk(t, a).itervalues() if t[0] == "d"
                                   else B.mk(t, a))),
              dict_of(object)(dict(B.mk(t, a).itertuples()))):
        for p, q in ((x, o), (o, x)):
            check(p != q and not p == q, "%s equals %s of another item type",
                  short(p), short(q))
    for o in (None, 3, "", (), object()):
        check(x != o and not (x == o), "%s equals %s", short(x), short(o))
    ctx.hit(a != b)


# -- repr -----------------------------------------------------------------------
@st.composite
def reprs(draw):
    # (generic list types of one item type have the same name, whether JSON or
    # not; only one of them can be in scope)
    s = draw(schemas(600, poly=0.2, samename=0, scalars=["int", "str", "bool", "float", "any",
                                   "date", "dt"],
                     items=["int", "str", "dt"], ro=0.1,
                     variants=[draw(st.sampled_from(["plain", "json"])),
                               "sub", "jsub"]))
    return (s, draw(values(s)))


def scope(B):
    ns = {"datetime": datetime}
    for c in list(B.recs) + list(B.colls.values()):
        ns[c.__name__] = c
    return ns


def evalrepr(case, ctx):
    s, v = case
    B = build(s)
    x = B.mk(TOP, v)
    text = must_not_raise(lambda: repr(x), "repr of %s" % type(x).__name__)
    check(isinstance(text, str), "repr gives %s", short(text))
    y = must_not_raise(lambda: eval(text, scope(B)),
                       "evaluating %s" % text)
    check(type(y) is type(x), "repr evaluates to a %s", type(y).__name__)
    check(x == y, "repr %s evaluates to an unequal record %s", text, short(y))
    got = B.un(TOP, y)
    check(lit_eq(got, v), "repr %s evaluates to %s, expected %s", text,
          short(got), short(v))
    check(lit_eq(B.un(TOP, x), v), "repr changed the record")
    ctx.hit(any(t[0] != "s" for p, t, _, _ in walk(s, TOP, v) if p))
    ctx.event("size %d" % min(len(list(walk(s, TOP, v))) // 5, 4))


# -- identity and informal text -------------------------------------------------
@st.composite
def texts(draw):
    # (an instance of a derived type is identified as one of its own type)
    s = draw(schemas(600, pk=0.5, scalars=[
        "int", "str", "str", "bool", "any", "dt", "list", "map"],
        items=["int", "str", "dt"],
        poly=draw(st.sampled_from([0.0, 0.2]))))
    r = draw(st.integers(0, len(s["recs"]) - 1))
    t = draw(st.sampled_from([TOP, ("r", r), ("r", r), None]))
    if t is None:
        t = (draw(st.sampled_from("dld")),
             draw(st.sampled_from([("s", "int"), ("s", "list"), ("r", r)])),
             draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    a = draw(values(s, t))
    return (s, t, a, mutate(s, t, a, draw, n=1))


def informal(case, ctx):
    s, t, a, b = case
    B = build(s)
    ids = []
    for v in (a, b):
        x = B.mk(t, v)
        text = must_not_raise(lambda: str(x), "str() of %s" % short(x))
        name = type(x).__name__
        if t[0] == "l":
            same(text, "<%s: %d item(s)>" % (name, len(v[1])),
                 "str() of %s" % short(x))
            continue
        if v[0] == "R":
            want = identity(s, ("r", v[1]), v, B)
        else:
            want = identity(s, t, v, B)
        ids.append(want)
        check(text.startswith("<%s " % name) and text[-1] == ">",
              "str() of %s is %s", short(x), text)
        inside = text[len(name) + 2:-1]
        check(len(inside) < 40, "long str(): %s", text)
        got = attempt(lambda: x.__pk__)
        if isinstance(got, Raised):
            check(unhashable(want), "__pk__ of %s: %s", short(x), got)
            check(raised(attempt(hash, x)), "%s has a hash but no key",
                  short(x))
            ctx.event("no key")
        else:
            check(got == want, "__pk__ of %s is %s instead of %s", short(x),
                  short(got), short(want))
            key = repr(want[0] if len(want) == 1 else want)
            check(inside[:30] == key[:30], "str() of %s is %s, key %s",
                  short(x), text, key)
            if len(key) <= 30:
                same(inside, key, "str() of %s" % short(x))
            if not unhashable(want) and t[0] == "r":
                same(hash(x), hash(B.mk(t, v)), "hash")
        check(lit_eq(B.un(t, x), v), "str() changed %s", short(x))
    ctx.hit(len(ids) == 2 and ids[0] != ids[1] or t[0] == "l")
    ctx.event(t[0])


# -- attributes which have a value though none was given ------------------------
LAZY = {"const": lambda: 2, "text": lambda: "b", "none": lambda: None,
        "list": lambda: [1], "told": lambda self: getattr(self, "a", 0)}


@st.composite
def implied(draw):
    """attributes, and two records of (given values, attributes read)"""
    names = draw(st.lists(st.sampled_from("abcde"), min_size=1, unique=True))
    kinds = {n: draw(st.sampled_from(
        ["plain", "v1", "v1text", "default"] + [
            x for x in sorted(LAZY) if x != "told" or n != "a"] * 2))
        for n in names}
    extra = [n for n in names if draw(st.integers(0, 5)) == 0]
    pk = [n for n in names if n not in extra and not draw(
        st.integers(0, 2))] if draw(st.booleans()) else []
    value = st.sampled_from([None, 0, 1, 2, "", "b", [1]])
    recs = [({n: draw(value) for n in names if not draw(st.integers(0, 2))},
             [n for n in names if draw(st.integers(0, 2)) == 0])
            for _ in range(2)]
    if draw(st.booleans()):
        recs[1] = (dict(recs[0][0]), recs[1][1])
        if draw(st.booleans()):
            n = draw(st.sampled_from(names))
            recs[1][0][n] = LAZY[kinds[n]]() if kinds[n] in LAZY and \
                kinds[n] != "told" else draw(value)
    return (kinds, extra, pk, recs)


def imply(case, ctx):
    kinds, extra, pk, recs = case
    props = {}
    for n, k in kinds.items():
        kw = {"extraneous": True} if n in extra else {}
        if k in LAZY:
            kw.update(lazy=True, default=LAZY[k])
        elif k == "default":
            kw["default"] = 2
        elif k != "plain":
            kw["v1_none"] = None if k == "v1" else ""
        props[n] = Property(**kw)
    cls = type(Record)("Implied", (Record,), dict(
        props, primary_key=[props[n] for n in pk], __module__=__name__))

    def make(given, read):
        x = cls(**{n: clone(v) for n, v in given.items()})
        for n in read:
            getattr(x, n, None)
        return x

    def value(given, n):
        if n in given:
            return given[n]
        k = kinds[n]
        if k == "told":
            return value(given, "a") if "a" in kinds and not (
                value(given, "a") is UNSET) else 0
        return LAZY[k]() if k in LAZY else {
            "default": 2, "v1": None, "v1text": ""}.get(k, UNSET)

    def same_slots(p, q):
        return all(value(p, n) == value(q, n) for n in kinds
                   if n not in extra)

    x, y = (make(*r) for r in recs)
    what = "%s %s, read %s, and %s, read %s" % (
        kinds, recs[0][0], recs[0][1], recs[1][0], recs[1][1])
    # (unset and false v1 attributes are the same to some)
    v1 = any(kinds[n] in ("v1", "v1text") and (n in recs[0][0]) != (
        n in recs[1][0]) for n in kinds)
    # hash first, or compare first
    hashes = [attempt(hash, make(*r)) for r in recs]
    for r, h in zip(recs, hashes):
        used = [value(r[0], n) for n in pk or sorted(kinds)
                if pk or n not in extra]
        check(isinstance(h, Raised) is any(isinstance(v, list) for v in used),
              "hash of %s %s: %s", kinds, r[0], h)
    got = x == y
    check(got is (y == x) and got is not (x != y) and got is not (y != x),
          "== and != of %s", what)
    want = same_slots(recs[0][0], recs[1][0])
    if not v1:
        check(got is want, "== of %s gives %s", what, got)
    later = [attempt(hash, z) for z in (x, y)]
    for a, b in zip(hashes, later):
        check(isinstance(a, Raised) and isinstance(b, Raised) or a == b,
              "hash of %s is %s, then %s", what, a, b)
    if got and not isinstance(hashes[0], Raised) and not isinstance(
            hashes[1], Raised):
        check(hashes[0] == hashes[1], "equal, hashes %s and %s: %s", hashes[0],
              hashes[1], what)
        check(len({make(*r) for r in recs}) == 1, "twice in a set: %s", what)
    for r in recs:
        z = make(*r)
        text = repr(z)
        w = must_not_raise(lambda: eval(text, {"Implied": cls}), text)
        check(set(w.__dict__) == set(z.__dict__), "%s has other attributes "
              "set", text)
        check(w == z, "%s is another record", text)
        check(str(z).startswith("<Implied "), "str(): %s", str(z))
    ctx.hit(any(k in LAZY for k in kinds.values()) and recs[0] != recs[1])
    ctx.event("equal" if got else "different")


PARTS = [
    Part("implied", implied, imply, quick=1500),
    Part("laws", triples, laws, quick=2500),
    Part("types", other_types, types, quick=600),
    Part("collections", colls, collections, quick=800),
    Part("repr", reprs, evalrepr, quick=1500),
    Part("informal", texts, informal, quick=1200),
]
