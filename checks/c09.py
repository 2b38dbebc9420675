"""C09: marshalling out, through JSON text, and back in reproduces the record."""
import json

from hypothesis import strategies as st

from lib.harness import Part, check, must_not_raise, same, short
from lib.jsonmodel import (
    FEAT, drop_extra, drop_top_unknown, has_unknown, jvalues,
)
from lib.schema import build, lit_eq, schemas, walk
from normalize.record.json import from_json, to_json

PROPERTY = "C09"
RULE = (
    "A case is a generated family of record types whose JSON mapping is "
    "invertible (JSON-aware and plain records, typed lists and dicts, renamed "
    "keys, custom conversions, dates, typed scalars), a value of its first "
    "type (or of a collection of it) with unknown keys in JSON-aware records, "
    "and the way it goes out, through text, and in.  Non-trivial: the value "
    "has a nested record or collection, or a renamed, converted, date, big "
    "integer or unknown key in it.")

TOP = ("r", 0)
TEXTS = ["plain", "ascii", "indent", "sorted", "bytes", "bytearray", "data"]


def through(data, how):
    if how == "data":
        return json.loads(json.dumps(data))
    if how == "indent":
        return json.dumps(data, indent=1)
    if how == "sorted":
        return json.dumps(data, sort_keys=True)
    if how == "ascii":
        return json.dumps(data)
    text = json.dumps(data, ensure_ascii=False)
    if how == "bytes":
        return text.encode("utf-8")
    if how == "bytearray":
        return bytearray(text.encode("utf-8"))
    return text


def interesting(s, t, v):
    if has_unknown(v):
        return True
    for p, tt, x, f in walk(s, t, v):
        if p and tt[0] != "s":
            return True
        if f and ("jn" in f or f.get("cod")) or tt in (
                ("s", "date"), ("s", "dt")):
            return True
        if type(x) is int and abs(x) > 2 ** 50:
            return True
    return False


@st.composite
def records(draw):
    s = draw(schemas(700, jnone=0, **FEAT))
    return (s, draw(jvalues(s)), draw(st.sampled_from(TEXTS)),
            draw(st.sampled_from(["to_json", "json_data"])),
            draw(st.sampled_from(["from_json", "cls", "cls.from_json"])))


def marshal_in(cls, isjson, doc, how):
    if isjson and how == "cls":
        return cls(doc)
    if isjson and how == "cls.from_json":
        return cls.from_json(doc)
    return from_json(cls, doc)


def roundtrip(case, ctx):
    s, v, text, outhow, inhow = case
    B = build(s)
    x = B.mk(TOP, v)
    cls, isjson = B.recs[0], s["recs"][0]["json"]
    if isjson and outhow == "json_data":
        data = must_not_raise(lambda: x.json_data(extraneous=True),
                              "json_data of %s" % short(x))
        want = v
    else:
        data = must_not_raise(lambda: to_json(x), "to_json of %s" % short(x))
        want = drop_top_unknown(v)
    doc = must_not_raise(lambda: through(data, text), "dumping %s" %
                         short(data))
    y = must_not_raise(lambda: marshal_in(cls, isjson, doc, inhow),
                       "marshalling in %s" % short(doc))
    got = B.un(TOP, y)
    check(lit_eq(got, want), "%s came back as %s, expected %s; JSON: %s",
          short(x), short(got), short(want), short(doc))
    check(y == x and not (y != x), "%s came back unequal: %s", short(x),
          short(y))
    again = y.json_data(extraneous=True) if isjson and \
        outhow == "json_data" else to_json(y)
    same(again, data, "JSON of the record read back")
    check(lit_eq(B.un(TOP, x), v), "changed by marshalling out")
    ctx.hit(interesting(s, TOP, v))
    ctx.event("%s/%s" % (outhow if isjson else "plain", text))


# -- without extraneous data ---------------------------------------------------
@st.composite
def lean(draw):
    s = draw(schemas(500, jnone=0, x=0.3, **FEAT))
    # required attributes which are left out cannot come back
    for r in s["recs"]:
        for f in r["fields"]:
            if f.get("x"):
                f.pop("req", None)
    return (s, draw(jvalues(s)), draw(st.sampled_from(TEXTS)))


def withoutextra(case, ctx):
    s, v, text = case
    B = build(s)
    x = B.mk(TOP, v)
    isjson = s["recs"][0]["json"]
    data = x.json_data() if isjson else to_json(x, extraneous=False)
    y = must_not_raise(lambda: from_json(B.recs[0], through(data, text)),
                       "marshalling in %s" % short(data))
    want = drop_extra(s, TOP, v)
    got = B.un(TOP, y)
    check(lit_eq(got, want), "%s came back as %s, expected %s; JSON: %s",
          short(x), short(got), short(want), short(data))
    check(y == x, "%s came back unequal: %s", short(x), short(y))
    ctx.hit(not lit_eq(v, want) and interesting(s, TOP, v))


# -- collections as documents ----------------------------------------------------
@st.composite
def colls(draw):
    s = draw(schemas(300, jnone=0, **FEAT))
    item = draw(st.sampled_from([
        ("r", 0), ("r", 0), ("s", "int"), ("s", "str"), ("s", "float")]))
    var = draw(st.sampled_from(["plain", "json", "sub", "jsub"]))
    t = (draw(st.sampled_from("ld")), item, var)
    if draw(st.integers(0, 4)) == 0:
        # (generic lists of generic JSON and plain lists of the same items
        # would have the same name: a definition error)
        t = (draw(st.sampled_from("ld")), t,
             draw(st.sampled_from(["sub", "jsub"])))
    return (s, t, draw(jvalues(s, t)), draw(st.sampled_from(TEXTS)),
            draw(st.sampled_from(["from_json", "cls", "cls.from_json"])))


def collections(case, ctx):
    s, t, v, text, inhow = case
    B = build(s)
    x = B.mk(t, v)
    cls, isjson = B.cls(t), t[2] in ("json", "jsub")
    if isjson and text != "plain":
        data = x.json_data(extraneous=True)
    else:
        data = to_json(x)
    doc = through(data, text)
    y = must_not_raise(lambda: marshal_in(cls, isjson, doc, inhow),
                       "marshalling in %s" % short(doc))
    got = B.un(t, y)
    check(lit_eq(got, v), "%s came back as %s, expected %s; JSON: %s",
          short(x), short(got), short(v), short(doc))
    check(y == x, "%s came back unequal: %s", short(x), short(y))
    same(to_json(y), to_json(x), "JSON of the collection read back")
    ctx.hit(len(v[1]) > 0)
    ctx.event("%s %s" % (t[0], t[2]))


PARTS = [
    Part("roundtrip", records, roundtrip, quick=2500),
    Part("lean", lean, withoutextra, quick=900),
    Part("collections", colls, collections, quick=1200),
]
