"""C10: JSON output has exactly the declared keys and only JSON data."""
import json

from hypothesis import strategies as st

from lib.harness import (
    Part, attempt, check, must_not_raise, must_raise, same, short,
)
from lib.jsonmodel import (
    FEAT, drop_top_unknown, has_unknown, jname, jvalues, jscalar, out,
)
from lib.schema import (
    CODECS, JNAMES, NAMES, build, clone, json_any, lit_eq, schemas, walk,
)
from normalize import JsonRecord, Property, Record
from normalize.record.json import from_json, to_json

PROPERTY = "C10"
RULE = (
    "A case is a generated family of record types (JSON-aware or plain, JSON "
    "names and None names, extraneous flags, output functions, nested "
    "records, lists and dicts), a value of its first type with unknown keys, "
    "and whether extraneous output is asked for.  Non-trivial: the output is "
    "not simply one key per attribute, or it is nested.")

TOP = ("r", 0)
JSON_TYPES = (str, int, float, bool, type(None), list, dict)


@st.composite
def records(draw):
    s = draw(schemas(900, jnone=0.15, x=0.25,
                     poly=draw(st.sampled_from([0.0, 0.3])), **FEAT))
    return (s, draw(jvalues(s)), draw(st.booleans()))


def pure(x):
    """plain JSON types only"""
    check(type(x) in JSON_TYPES, "%s in JSON output", short(x))
    if type(x) is list:
        for y in x:
            pure(y)
    elif type(x) is dict:
        for k, y in x.items():
            check(type(k) is str, "key %s in JSON output", short(k))
            pure(y)


def vandalize(x):
    """change everything that can be changed in a piece of JSON data"""
    if isinstance(x, list):
        for y in x:
            vandalize(y)
        x.append("vandal")
    elif isinstance(x, dict):
        for y in x.values():
            vandalize(y)
        x["vandal"] = 1
        for k in list(x):
            x[k] = "vandal"


def output(case, ctx):
    s, v, ext = case
    B = build(s)
    x = B.mk(TOP, v)
    before = repr(x)
    forms = [("to_json", lambda: to_json(x, ext),
              out(s, TOP, v, ext)),
             ("to_json", lambda: to_json(x, extraneous=ext),
              out(s, TOP, v, ext))]
    if ext:
        forms.append(("to_json", lambda: to_json(x),
                      out(s, TOP, v, True)))
    if s["recs"][0]["json"]:
        forms.append(("json_data", lambda: x.json_data(extraneous=ext),
                      out(s, TOP, v, ext, top=False)))
        forms.append(("json_data", lambda: x.json_data(),
                      out(s, TOP, v, False)))
    for name, fn, want in forms:
        got = must_not_raise(fn, "%s of %s" % (name, before))
        same(got, want, "%s (extraneous: %s) of %s" % (name, ext, before))
        pure(got)
        must_not_raise(lambda: json.dumps(got), "encoding %s" % short(got))
        check(lit_eq(B.un(TOP, x), v), "%s changed the record %s to %s",
              name, before, short(x))
        vandalize(got)
        check(lit_eq(B.un(TOP, x), v),
              "changing the output of %s changed the record %s to %s",
              name, before, short(x))
        same(fn(), want, "second %s" % name)
    # one property
    cls = B.recs[0]
    for f in B.fields(0):
        if f.get("cod"):
            want = CODECS[f["cod"]][1](v[2][f["n"]]) if f["n"] in v[2] \
                else None
        elif f["n"] in v[2]:
            want = out(s, f["t"], v[2][f["n"]], ext, False)
        for p in (f["n"], cls.properties[f["n"]]):
            if f["n"] in v[2]:
                same(to_json(x, ext, prop=p), want, "to_json(prop=%s)" %
                     f["n"])
            else:
                must_raise(AttributeError, lambda: to_json(x, ext, prop=p),
                           "to_json(prop=) of unset %s" % f["n"])
    ctx.hit(has_unknown(v) or any(
        p and t[0] != "s" or f and (jname(f) != f["n"] or f.get("x"))
        for p, t, _, f in walk(s, TOP, v)))
    ctx.event("extraneous" if ext else "not extraneous")


# -- unknown keys -----------------------------------------------------------------
@st.composite
def unknowns(draw):
    s = draw(schemas(400, json=1.0, jnone=0.2, x=0.3, req=0,
                     maxrecs=2, **FEAT))
    v = draw(jvalues(s, unknown=False))
    rec = s["recs"][0]
    for f in rec["fields"]:
        if f["t"] == ("s", "any") and f["n"] in v[2] and \
                draw(st.integers(0, 2)) == 0:
            v[2][f["n"]] = ("A", draw(st.sampled_from([None, None, 0, ""])))
    names = [jname(f) for f in rec["fields"]]
    # any names, python names and known ones too
    extra = draw(st.dictionaries(
        st.sampled_from(NAMES + JNAMES + ["unknown_json_keys"]) |
        st.sampled_from([n for n in names if n] or ["a"]) |
        st.text(max_size=3), json_any, min_size=1, max_size=4))
    return (s, v, extra, [n for n in names if n in extra],
            draw(st.sampled_from(["cls", "from_json", "kw"])))


def unknown(case, ctx):
    s, v, extra, clash, how = case
    B = build(s)
    cls = B.recs[0]
    known = out(s, TOP, v, True)
    fresh = {k: x for k, x in extra.items()
             if k not in [jname(f) for f in B.fields(0)]}
    if how == "kw":
        # set by hand: may name known keys
        x = B.mk(TOP, v + (extra,))
        unk = extra
    else:
        doc = dict(clone(fresh), **clone(known))
        keep = clone(doc)
        x = cls(doc) if how == "cls" else from_json(cls, doc)
        same(doc, keep, "the document after marshalling in")
        got = getattr(x, "unknown_json_keys", {})
        same(got, fresh, "unknown keys of %s" % short(doc))
        # (an attribute without a type holds the very value it is given)
        vandalize([doc.pop(k) for k in fresh])
        same(getattr(x, "unknown_json_keys", {}), fresh,
             "unknown keys after the input document is changed")
        unk = fresh
    full = x.json_data(extraneous=True)
    want = dict(known)
    for k, y in unk.items():
        want.setdefault(k, jscalar(y))
    same(full, want, "json_data(extraneous=True) of %s" % short(x))
    same(x.json_data(), out(s, TOP, v, False), "json_data() of %s" % short(x))
    same(to_json(x), known, "to_json of %s" % short(x))
    vandalize(full)
    same(getattr(x, "unknown_json_keys", {}), unk,
         "unknown keys after the output is changed")
    same(x.json_data(extraneous=True), want, "json_data again")
    ctx.hit(bool(fresh))
    ctx.event("%s clash=%s" % (how, bool(clash)))


# -- plain data, json_data methods, and unmarshallable things ----------------------
class Odd(object):
    """something with its own json_data method, without 'extraneous'"""
    def __init__(self, v):
        self.v = v

    def json_data(self):
        return {"odd": self.v}


class Even(object):
    """... with 'extraneous'"""
    def __init__(self, v):
        self.v = v

    def json_data(self, extraneous="default"):
        return [self.v, extraneous]


class KwOnly(Even):
    def json_data(self, *, extraneous="default"):
        return [self.v, extraneous]


class Leaf(Record):
    a = Property(isa=int)
    z = Property(isa=int, extraneous=True)


class JLeaf(JsonRecord):
    a = Property(isa=int)
    z = Property(isa=int, extraneous=True)


class Alien(object):
    pass


KINDS = {"odd": Odd, "even": Even, "kwonly": KwOnly}

leaves = st.one_of(
    json_any.map(lambda x: ("data", x)),
    st.sampled_from([2 ** 50, 2 ** 50 + 1, -2 ** 70, True, None, ""]).map(
        lambda x: ("data", x)),
    st.tuples(st.sampled_from(["odd", "even", "kwonly", "leaf", "jleaf"]),
              st.integers(0, 3)))
trees = st.recursive(
    leaves, lambda s: st.one_of(
        st.tuples(st.just("list"), st.lists(s, max_size=3)),
        st.tuples(st.just("tuple"), st.lists(s, max_size=3)),
        st.tuples(st.just("dict"), st.dictionaries(
            st.sampled_from("abc"), s, max_size=3)),
        st.tuples(st.just("set"), st.lists(st.integers(0, 5), max_size=3)),
        st.tuples(st.just("frozenset"),
                  st.lists(st.sampled_from("abc"), max_size=3))),
    max_leaves=6)


def grow(v):
    k, a = v
    if k == "data":
        return clone(a)
    if k == "leaf":
        return Leaf(a=a, z=a)
    if k == "jleaf":
        return JLeaf(a=a, z=a)
    if k in KINDS:
        return KINDS[k](a)
    if k == "list":
        return [grow(x) for x in a]
    if k == "tuple":
        return tuple(grow(x) for x in a)
    if k == "dict":
        return {n: grow(x) for n, x in a.items()}
    return {"set": set, "frozenset": frozenset}[k](a)


def ref(v, ext):
    k, a = v
    if k == "data":
        return jscalar(a)
    if k == "odd":
        return {"odd": a}
    if k in ("even", "kwonly"):
        return [a, ext]
    if k in ("leaf", "jleaf"):
        return {"a": a, "z": a} if ext else {"a": a}
    if k in ("list", "tuple"):
        return [ref(x, ext) for x in a]
    if k == "dict":
        return {n: ref(x, ext) for n, x in a.items()}
    return sorted(set(a))


def normal(x):
    # sets come out in any order
    return x


def trees_(draw=None):
    return st.tuples(trees, st.booleans(), st.booleans())


class Holder(Record):
    x = Property()


def arbitrary(case, ctx):
    v, ext, held = case
    want = ref(v, ext)
    x = grow(v)
    if v[0] in ("odd", "even", "kwonly"):
        held = True     # (to_json() itself is not for these)
    if held:
        x, want = Holder(x=x), {"x": want}
    got = must_not_raise(lambda: to_json(x, ext), "to_json of %s" % short(v))
    same(unset(got, v, held), unset(want, v, held), "to_json(%s) of %s" %
         (ext, short(v)))
    pure(got)
    ctx.hit(v[0] != "data")
    # something that has no JSON form is an error wherever it is
    bad = [x, Alien()]
    must_raise(TypeError, lambda: to_json(bad, ext), "to_json of an object()")
    must_raise(TypeError, lambda: to_json({"a": Alien()}, ext),
               "to_json of an object()")
    must_raise(TypeError, lambda: to_json(Holder(x=Alien()), ext),
               "to_json of an object()")


def unset(x, v, held):
    """sort the lists which were sets"""
    if held:
        return {"x": unset(x["x"], v, False)}
    k, a = v
    if k in ("set", "frozenset"):
        return sorted(x)
    if k in ("list", "tuple") and isinstance(x, list) and len(x) == len(a):
        return [unset(y, w, False) for y, w in zip(x, a)]
    if k == "dict" and isinstance(x, dict):
        return {n: unset(y, a[n], False) if n in a else y
                for n, y in x.items()}
    return x


PARTS = [
    Part("output", records, output, quick=2500),
    Part("unknown", unknowns, unknown, quick=1200),
    Part("arbitrary", trees_, arbitrary, quick=800),
]
