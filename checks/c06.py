"""C06: pickling and copying preserve records and collections."""
import copy
import pickle
import sys

from hypothesis import strategies as st

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, same, short,
)
from lib.schema import build, clone, lit_eq, make_schema, values
from lib.treemodel import kind_of, locations, mutables
from normalize import JsonRecord, Property, Record
from normalize.coll import DictCollection, ListCollection
from normalize.record.json import to_json

PROPERTY = "C06"
RULE = (
    "A case is a value of a generated family of record types (JSON-aware or "
    "plain, lazy, read-only, extraneous and required attributes, nested "
    "records and collections of all flavours, unknown JSON keys), or a typed "
    "collection with extra attributes after a history, or the result of a "
    "comparison; it is pickled with each protocol and deep-copied, and a "
    "random operation on the copy is compared with the same operation on an "
    "equal new object.  Non-trivial: a nested value, or one with unset "
    "attributes.")

TOP = ("r", 0)
LAZY = {"int": 7, "str": "lz", "float": 0.5, "bool": True}


def with_lazies(s, i):
    import random
    r = random.Random(i)
    for rec in s["recs"]:
        for f in rec["fields"]:
            if f["t"][0] == "s" and f["t"][1] in LAZY and \
                    r.random() < 0.3:
                f["lz"] = LAZY[f["t"][1]]
                f.pop("req", None)
    return s


@st.composite
def trees(draw):
    i = draw(st.integers(0, 700))
    s = with_lazies(make_schema(
        i, ro=0.15, x=0.2, poly=0.25 * (i % 2), scalars=[
            "int", "str", "float", "bool", "any", "any", "date", "dt"]), i)
    t = TOP
    if draw(st.integers(0, 4)) == 0:
        t = (draw(st.sampled_from("ld")), t,
             draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    v = draw(values(s, t, unknown=lambda k: st.dictionaries(
        st.sampled_from(["zz", "yy z"]), st.sampled_from(
            [1, "x", [1, {"q": []}], None]), min_size=1, max_size=2)))
    how = draw(st.sampled_from(["deepcopy", 0, 1, 2, 3, 4, 5, "python"]))
    locs = [(p, lt) for p, lt, lv in locations(s, t, v)
            if kind_of(lt, lv) != "leaf"]
    p, lt = draw(st.sampled_from(locs))
    op = draw(ops(s, lt))
    return (s, t, v, how, p, lt, op)


BADS = ["x", 5, None, [], {}, [1], {"zz": 1}, 2.5]


@st.composite
def ops(draw, s, t):
    val = st.tuples(st.just("raw"), st.sampled_from(BADS))
    if t[0] == "r":
        fields = s["recs"][t[1]]["fields"]
        f = draw(st.sampled_from(fields))
        new = draw(val | st.tuples(st.just("lit"), st.just(f["t"]),
                                   values(s, f["t"])))
        return (draw(st.sampled_from(["set", "set", "del", "get"])), f["n"],
                new)
    it = ("s", "any") if t == ("s", "any") else t[1]
    new = draw(val | st.tuples(st.just("lit"), st.just(it), values(s, it)))
    if t[0] == "d" or t == ("s", "any"):
        return ("item", draw(st.sampled_from(["a", "b", 0])), new)
    return (draw(st.sampled_from(["append", "item", "delitem"])), 0, new)


def do(B, obj, path, op):
    """perform an operation at a location; its outcome"""
    for x in path:
        obj = obj[x] if hasattr(obj, "__getitem__") else getattr(obj, x)
    name, where, new = op
    val = B.mk(new[1], new[2]) if new[0] == "lit" else clone(new[1])

    def go():
        if name == "set":
            setattr(obj, where, val)
        elif name == "del":
            delattr(obj, where)
        elif name == "get":
            return getattr(obj, where)
        elif name == "item":
            obj[where] = val
        elif name == "append":
            obj.append(val)
        elif name == "delitem":
            del obj[where]
    r = attempt(go)
    if isinstance(r, Raised):
        return ("raised", type(r.exc).__name__)
    return ("ok", repr(r))


def duplicate(x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "copy":
        return copy.copy(x)
    if how == "python":
        # the pure python implementation
        import io
        f = io.BytesIO()
        pickle._Pickler(f, 2).dump(x)
        return pickle._loads(f.getvalue())
    return pickle.loads(pickle.dumps(x, how))


def copying(case, ctx):
    s, t, v, how, path, lt, op = case
    B = build(s)
    x = B.mk(t, v)
    before = B.un(t, x)
    y = must_not_raise(lambda: duplicate(x, how),
                       "%s of %s" % (how, short(x)))
    what = "%s of %s" % (how, short(x))
    check(type(y) is type(x), "%s is a %s", what, type(y).__name__)
    check(lit_eq(B.un(t, x), before), "%s: changed the original to %s", what,
          short(x))
    got = B.un(t, y)
    check(lit_eq(got, before), "%s is %s", what, short(y))
    eq = must_not_raise(lambda: (x == y, y == x, x != y, y != x), what)
    same(eq, (True, True, False, False), "equality with %s" % what)
    mine, theirs = {}, {}
    mutables(x, mine)
    mutables(y, theirs)
    both = [theirs[k] for k in theirs if k in mine]
    check(not both, "%s shares %s with the original", what, short(both))
    # (comparing may have computed lazy attributes, of both)
    same(repr(y), repr(x), "repr of %s" % what)
    hx, hy = attempt(lambda: hash(x)), attempt(lambda: hash(y))
    if not isinstance(hx, Raised):
        # (a hash may compute lazy attributes)
        same(hy, hx, "hash of %s" % what)
    # the copy works as a new one does
    x = B.mk(t, v)
    y = duplicate(x, how)
    ref = B.mk(t, v)
    r1 = do(B, y, path, op)
    r2 = do(B, ref, path, op)
    what2 = "%s at %s on %s" % (short(op), short(path), what)
    same(r1, r2, what2)
    check(lit_eq(B.un(t, y), B.un(t, ref)), "%s: copy is now %s, not %s",
          what2, short(y), short(ref))
    check(lit_eq(B.un(t, x), before), "%s: changed the original to %s",
          what2, short(x))
    j1, j2 = attempt(lambda: to_json(y)), attempt(lambda: to_json(ref))
    if isinstance(j2, Raised):
        check(isinstance(j1, Raised), "to_json of %s", what2)
    else:
        same(j1, j2, "to_json after %s" % what2)
    # and can be copied again
    z = must_not_raise(lambda: duplicate(y, how), "second " + what)
    check(lit_eq(B.un(t, z), B.un(t, y)), "second %s is %s", what, short(z))
    ctx.hit(len(mine) > 1 or t[0] == "r" and len(v[2]) < len(
        s["recs"][0]["fields"]))
    ctx.event("%s" % (how,))
    ctx.event("%s %s" % (op[0], r1[0]))


# -- collections -------------------------------------------------------------------
class Plain(Record):
    n = Property(isa=int)
    tags = Property(isa=list)


class JPlain(JsonRecord):
    n = Property(isa=int, json_name="N")


_types = {}


def subtypes():
    """declared collection types, some of generic ones, with attributes"""
    if _types:
        return _types
    from normalize.coll import dict_of, list_of
    from normalize.property.json import JsonDictProperty, JsonListProperty
    from normalize.record.json import JsonRecordDict, JsonRecordList
    bases = {
        "list": (ListCollection, Plain), "dict": (DictCollection, Plain),
        "glist": (list_of(Plain), None), "gdict": (dict_of(Plain), None),
        "jlist": (JsonRecordList, JPlain), "jdict": (JsonRecordDict, JPlain),
        "gjlist": (JsonListProperty(of=JPlain).valuetype, None),
        "gjdict": (JsonDictProperty(of=JPlain).valuetype, None),
        "glistint": (list_of(int), None), "gdictint": (dict_of(int), None),
    }
    for k, (base, item) in bases.items():
        for extra in (False, True):
            name = "T%s%d" % (k, extra)
            ns = {"__module__": __name__, "__qualname__": name}
            if item:
                ns["itemtype"] = item
            if extra:
                ns["page"] = Property(isa=int)
                ns["note"] = Property(extraneous=True)
                ns["lazy"] = Property(lazy=True, default=lambda: [5])
                ns["fixed"] = Property(traits=["ro"])
            cls = type(base)(name, (base,), ns)
            setattr(sys.modules[__name__], name, cls)
            _types[k, extra] = cls
        if item is None:
            # the generic type itself
            _types[k, None] = base
    return _types


@st.composite
def collections_(draw):
    key = draw(st.sampled_from(sorted(subtypes(), key=repr)))
    ints = key[0].endswith("int")
    item = st.integers(0, 4)
    items = draw(st.lists(item, max_size=4))
    attrs = {}
    if key[1]:
        attrs = draw(st.fixed_dictionaries({}, optional={
            "page": st.integers(0, 3),
            "note": st.sampled_from([1, [1], {"a": [2]}]),
            "lazy": st.just(["given"]),
            "fixed": st.sampled_from([1, [1, 2]])}))
    how = draw(st.sampled_from(["deepcopy", 0, 1, 2, 3, 4, 5, "python",
                                "copy"]))
    return key, items, attrs, draw(st.booleans()), how, draw(
        st.sampled_from(["alone", "attr", "any", "list"]))


class Holder(Record):
    it = Property()
    other = Property()


def state(c):
    """observable state of a collection, without computing anything"""
    if isinstance(c, DictCollection):
        items = [(k, repr(v)) for k, v in c.items()]
    else:
        items = [repr(v) for v in c]
    out = {"items": items}
    for n in ("page", "note", "fixed"):
        out[n] = repr(getattr(c, n, "unset"))
    out["lazy"] = repr(c.__dict__.get("lazy", "unset"))
    return out


def collcopy(case, ctx):
    key, items, attrs, read, how, where = case
    cls = subtypes()[key]
    isdict = "dict" in key[0]
    ints = key[0].endswith("int")

    def mkitem(n):
        if ints:
            return n
        if "j" in key[0]:
            return JPlain(n=n)
        return Plain(n=n, tags=[n]) if n else Plain()
    objs = [mkitem(n) for n in items]
    vals = {"k%d" % i: y for i, y in enumerate(objs)} if isdict else objs
    c = cls(values=vals, **{k: clone(x) for k, x in attrs.items()})
    if read and key[1]:
        c.lazy
    st0 = state(c)
    if where == "alone":
        top, get = c, lambda z: z
    elif where == "attr":
        top, get = Holder(it=c, other=1), lambda z: z.it
    elif where == "any":
        top, get = Holder(it={"x": [c]}), lambda z: z.it["x"][0]
    else:
        top, get = [c, c], lambda z: z[1]
    what = "%s of %s in %s" % (how, short(c), where)
    if how == "copy":
        # a shallow copy: the same items
        if where != "alone":
            return
        d = must_not_raise(lambda: copy.copy(c), what)
        check(type(d) is cls, "%s is a %s", what, type(d).__name__)
        same(state(d), st0, what)
        check(d == c and not d != c, "%s is not equal", what)
        got = list(d.values()) if isdict else list(d)
        check(len(got) == len(objs) and all(
            x is y for x, y in zip(got, objs)), "%s: not the same items",
            what)
        return
    top2 = must_not_raise(lambda: duplicate(top, how), what)
    d = get(top2)
    check(type(d) is cls, "%s is a %s", what, type(d).__name__)
    same(state(d), st0, what)
    same(state(c), st0, "original after %s" % what)
    check(d == c and not d != c, "%s is not equal", what)
    if where == "list":
        check(top2[0] is top2[1], "%s: two copies of one object", what)
    mine, theirs = {}, {}
    mutables(top, mine)
    mutables(top2, theirs)
    check(not set(mine) & set(theirs), "%s: shares state", what)
    # works
    new = mkitem(9)
    if isdict:
        d["new"] = new
        bad = attempt(lambda: d.__setitem__("bad", "no"))
        check("new" in d and d["new"] is new, "%s: setting an item", what)
        del d["new"]
    else:
        d.append(new)
        bad = attempt(lambda: d.append("no"))
        check(d[len(items)] is new and len(d) == len(items) + 1,
              "%s: append", what)
        d.pop()
    check(isinstance(bad, Raised) and isinstance(bad.exc, TypeError),
          "%s: accepts illegal items", what)
    same(state(d), st0, "%s, after adding and removing" % what)
    if key[1]:
        bad = attempt(lambda: setattr(d, "page", "no"))
        check(isinstance(bad, Raised), "%s: accepts an illegal page", what)
        bad = attempt(lambda: setattr(d, "fixed", 3))
        check(isinstance(bad, Raised), "%s: read-only attribute set", what)
        want = attrs.get("lazy", [5])
        same(d.lazy, want, "lazy attribute of %s" % what)
        d.page = 44
        same(d.page, 44, "page of %s" % what)
        del d.page
        check(not hasattr(d, "page"), "%s: page not deleted", what)
    same(state(c), st0, "original, after changing %s" % what)
    ctx.hit(bool(items) or bool(attrs))
    ctx.event("%s %s" % (key[0], how))


# -- results of comparisons ------------------------------------------------------
@st.composite
def diffs(draw):
    from lib.schema import mutate, schemas
    s = draw(schemas(300, req=0))
    v = draw(values(s))
    w = mutate(s, TOP, v, draw, n=draw(st.integers(0, 3)))
    return s, v, w, draw(st.sampled_from(["deepcopy", 0, 2, 5, "python"]))


def diffcopy(case, ctx):
    s, v, w, how = case
    B = build(s)
    a, b = B.mk(TOP, v), B.mk(TOP, w)
    d = attempt(lambda: a.diff(b))
    if isinstance(d, Raised):
        return
    e = must_not_raise(lambda: duplicate(d, how), "%s of %r" % (how, d))
    what = "%s of %s" % (how, short(d))
    check(type(e) is type(d), "%s is a %s", what, type(e).__name__)
    same(repr(e), repr(d), what)
    check(e == d and not e != d, "%s is not equal", what)
    same((e.base_type_name, e.other_type_name),
         (d.base_type_name, d.other_type_name), what)
    same([(x.base.path, x.other.path, x.diff_type.canonical_name)
          for x in e],
         [(x.base.path, x.other.path, x.diff_type.canonical_name)
          for x in d], what)
    for x, y in zip(d, e):
        check(x.diff_type == y.diff_type and not x.diff_type != y.diff_type,
              "%s: another diff type", what)
        check(x is not y and x.base is not y.base, "%s: shared", what)
    ctx.hit(len(d) > 0)


PARTS = [
    Part("trees", trees, copying, quick=2500),
    Part("collections", collections_, collcopy, quick=1500),
    Part("diffs", diffs, diffcopy, quick=500),
]
