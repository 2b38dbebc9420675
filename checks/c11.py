"""C11: JSON input forms are equivalent, faults are reported at their path."""
import json

from hypothesis import strategies as st

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, raised, same, short,
)
from lib.jsonmodel import FEAT, jname, jvalues, out
from lib.schema import build, clone, lit_eq, schemas, walk
from normalize import exc
from normalize.record.json import from_json, to_json

PROPERTY = "C11"
RULE = (
    "A case is a generated family of record types and a document for its "
    "first type (or a collection of it); for 'faults', one value at any "
    "position is replaced by one that cannot be converted.  Non-trivial: a "
    "fault at depth two or more, or a document with a nested record or "
    "collection.")

TOP = ("r", 0)


def doc_text(doc, how):
    if how == "text":
        return json.dumps(doc, ensure_ascii=False)
    if how == "ascii":
        return json.dumps(doc)
    b = json.dumps(doc, ensure_ascii=False, indent=1).encode("utf-8")
    return bytearray(b) if how == "bytearray" else b


@st.composite
def documents(draw):
    s = draw(schemas(700, jnone=0.1, req=0, **FEAT))
    t = TOP
    if draw(st.integers(0, 3)) == 0:
        t = (draw(st.sampled_from("ld")), draw(st.sampled_from(
            [TOP, TOP, ("s", "int"), ("s", "str")])),
            draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    return (s, t, draw(jvalues(s, t)))


def isjson(s, t):
    return s["recs"][t[1]]["json"] if t[0] == "r" else \
        t[2] in ("json", "jsub")


def full(s, t, v):
    """the document, unknown keys of the top record included"""
    return out(s, t, v, True, top=False)


def survives(s, t, v):
    """what comes back: not the attributes without a JSON name"""
    if t[0] == "l":
        return ("L", [survives(s, t[1], x) for x in v[1]])
    if t[0] == "d":
        return ("D", {k: survives(s, t[1], x) for k, x in v[1].items()})
    if t[0] == "r":
        fl = {f["n"]: f for f in s["recs"][v[1]]["fields"]}
        return ("R", v[1], {
            n: survives(s, fl[n]["t"], x) for n, x in v[2].items()
            if jname(fl[n]) is not None}) + v[3:]
    return v


def forms(case, ctx):
    s, t, v = case
    B = build(s)
    cls = B.cls(t)
    doc = full(s, t, v)
    keep = clone(doc)
    want = survives(s, t, v)
    got = []
    funcs = [("from_json", lambda d: from_json(cls, d))]
    if isjson(s, t):
        funcs.append(("type()", cls))
        funcs.append(("type.from_json", cls.from_json))
    for how in ("data", "text", "ascii", "bytes", "bytearray"):
        d = doc if how == "data" else doc_text(doc, how)
        saved = clone(doc) if how == "data" else type(d)(d)
        for name, fn in funcs:
            x = must_not_raise(lambda: fn(d), "%s of %s %s" % (
                name, how, short(d)))
            lit = B.un(t, x)
            check(lit_eq(lit, want), "%s of %s %s gives %s, expected %s",
                  name, how, short(d), short(lit), short(want))
            same(d, saved, "the document after %s" % name)
            got.append(x)
    for x in got:
        check(x == got[0], "forms of one document differ: %s, %s",
              short(x), short(got[0]))
    # what was read shares nothing with the document but untyped values
    poison(s, t, v, doc)
    for x in got[:len(funcs)]:
        lit = B.un(t, x)
        check(lit_eq(lit, want), "changed with the document: %s, was %s",
              short(lit), short(want))
    ctx.hit(any(p and tt[0] != "s" for p, tt, _, _ in walk(s, t, v)))
    ctx.event(t[0])


def poison(s, t, v, doc):
    """change the structure of a document (but not untyped values in it)"""
    if t[0] == "l":
        for x, y in zip(v[1], doc):
            poison(s, t[1], x, y)
        doc.append({"poison": 1})
        doc.reverse()
    elif t[0] == "d":
        for k, x in v[1].items():
            poison(s, t[1], x, doc[k])
        doc["poison"] = 1
        doc.pop(next(iter(doc)))
    elif t[0] == "r":
        names = {}
        for f in s["recs"][v[1]]["fields"]:
            names[jname(f)] = f
            if f["n"] in v[2] and jname(f) is not None and \
                    not f.get("cod"):
                poison(s, f["t"], v[2][f["n"]], doc[jname(f)])
        for k in list(doc):
            if k not in names:
                ruin(doc[k])
        doc["poison"] = 1
        doc.pop(next(iter(doc)))


def ruin(x):
    if isinstance(x, list):
        for y in x:
            ruin(y)
        x.append("ruin")
    elif isinstance(x, dict):
        for y in x.values():
            ruin(y)
        x["ruin"] = 1


# -- faults ----------------------------------------------------------------------
BAD = {      # scalar values which the type does not accept from JSON
    "int": ["x", "", {}, [], None, "1x", [1]],
    "float": ["x", {}, None, []],
    "date": ["nonsense", 5, {}, [], "2020-13-01", None, "2020-02-30"],
    "dt": ["nonsense", 5, {}, [], None, "2020-01-01T25:00:00"],
    "num": ["x", {}, None, []],
}
BADCOD = {"hex": [5, "12", "hz", None, {}], "wrap": [5, None, {"w": 1}, [1]],
          "rev": [5, {}, None], "listed": [[], 5, {}, None]}


def slots(s, t, v, path=()):
    """(JSON path, type, field, parent type) of all of a document"""
    if t[0] == "r":
        for f in s["recs"][v[1]]["fields"]:
            if f["n"] in v[2] and jname(f) is not None:
                p = path + (jname(f),)
                yield p, f["t"], f, t
                if not f.get("cod"):
                    for y in slots(s, f["t"], v[2][f["n"]], p):
                        yield y
    elif t[0] in "ld":
        for i, x in (enumerate(v[1]) if t[0] == "l" else v[1].items()):
            p = path + (i,)
            yield p, t[1], None, t
            for y in slots(s, t[1], x, p):
                yield y


def bad_values(s, t, f, parent):
    """[(value, exact)]: the path must be exact, or may be the holder's"""
    item = parent[0] in "ld" and not isjson(s, parent)
    if f and f.get("cod"):
        return [(x, True) for x in BADCOD[f["cod"]]]
    if t[0] == "s":
        return [(x, item) for x in BAD.get(t[1], [])]
    bad = [5, "no JSON", 1.5, True]
    if t[0] == "r":
        return [(x, isjson(s, t) or parent[0] in "ld")
                for x in bad] + [([], True), ([1], True)]
    if isjson(s, t):
        bad.append({} if t[0] == "l" else [])
    return [(x, isjson(s, t) or parent[0] in "ld") for x in bad]


@st.composite
def faults(draw):
    s = draw(schemas(900, lo=4, jnone=0.04, kinds="srrllldd", **FEAT))
    t = TOP
    if draw(st.integers(0, 3)) == 0:
        t = (draw(st.sampled_from("ld")), TOP,
             draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    # no empty collections: go deep
    v = draw(jvalues(s, t, unset=draw(st.booleans())))
    for r in s["recs"]:
        for f in r["fields"]:
            if jname(f) is None:
                f.pop("req", None)
    where = [(p, tt, f, par, x) for p, tt, f, par in slots(s, t, v)
             for x in bad_values(s, tt, f, par)]
    if not where:
        return (s, t, v, None, None, False)
    deep = max(len(w[0]) for w in where)
    k = draw(st.integers(1, deep))
    at = [w for w in where if len(w[0]) >= k]
    p, tt, f, par, (x, exact) = at[draw(st.integers(0, len(at) - 1))]
    return (s, t, v, p, x, exact)


def put(doc, path, x):
    for k in path[:-1]:
        doc = doc[k]
    doc[path[-1]] = x


def fault(case, ctx):
    s, t, v, path, bad, exact = case
    if path is None:
        return
    B = build(s)
    cls = B.cls(t)
    doc = full(s, t, v)
    # the document is fine ...
    must_not_raise(lambda: from_json(cls, clone(doc)),
                   "marshalling in %s" % short(doc))
    put(doc, path, clone(bad))
    keep = clone(doc)
    funcs = [("from_json", lambda: from_json(cls, doc)),
             ("from_json of text", lambda: from_json(cls, json.dumps(doc)))]
    if isjson(s, t):
        funcs.append(("type()", lambda: cls(doc)))
    for name, fn in funcs:
        r = attempt(fn)
        what = "%s of %s with %s at %s" % (name, short(doc), short(bad),
                                           list(path))
        check(isinstance(r, Raised), "%s gives %s", what, short(r))
        same(doc, keep, "the document after %s" % name)
        e = r.exc
        check(isinstance(e, TypeError), "%s: %r, not a TypeError", what, r)
        check(isinstance(str(e), str), "%s: no message", what)
        if isinstance(e, exc.JsonConversionError):
            got = tuple(e.error_fs)
            ok = (path,) if exact else (path, path[:-1])
            check(got in ok, "%s: reported at %s, expected %s", what,
                  list(got), " or ".join(map(str, map(list, ok))))
            check(e.error_fs.path in str(e), "%s: message %s", what, e)
            sub = e.sub_exception
            check(isinstance(sub, Exception) and
                  not isinstance(sub, exc.JsonConversionError),
                  "%s: original error is %s", what, short(sub))
            if path == got:
                ctx.event("exact depth %d" % len(path))
            else:
                ctx.event("holder depth %d" % len(path))
        else:
            check(not exact and len(path) == 1,
                  "%s: %r without the path", what, r)
    ctx.hit(len(path) > 1)


# -- the original error of a conversion function, and required attributes ----------
@st.composite
def missings(draw):
    s = draw(schemas(900, lo=4, jnone=0, req=0.5, pk=0.5,
                     kinds="srrllldd", **FEAT))
    v = draw(jvalues(s))
    return (s, v, draw(st.integers(0, 40)))


def missing(case, ctx):
    s, v, k = case
    B = build(s)
    doc = full(s, TOP, v)
    where = [(p[:-1], f) for p, t, f, par in slots(s, TOP, v)
             if f and f.get("req")]
    if not where:
        return
    holder, f = where[k % len(where)]
    d = doc
    for x in holder:
        d = d[x]
    del d[jname(f)]
    r = attempt(from_json, B.recs[0], doc)
    what = "from_json of %s without required %s" % (
        short(doc), list(holder + (jname(f),)))
    check(isinstance(r, Raised), "%s gives %s", what, short(r))
    if holder:
        check(isinstance(r.exc, exc.JsonConversionError), "%s: %r", what, r)
        got = tuple(r.exc.error_fs)
        check(got == holder, "%s: reported at %s", what, list(got))
        check(isinstance(r.exc.sub_exception, ValueError),
              "%s: original error is %s", what, short(r.exc.sub_exception))
    else:
        check(isinstance(r.exc, ValueError), "%s: %r", what, r)
    ctx.hit(len(holder) > 0)
    ctx.event("depth %d" % len(holder))


# -- malformed text --------------------------------------------------------------
@st.composite
def garbles(draw):
    s, t, v = draw(documents())
    text = json.dumps(full(s, t, v), ensure_ascii=False)
    how = draw(st.sampled_from(["cut", "ins", "bytes", "append", "noise"]))
    n = draw(st.integers(0, len(text)))
    if how == "cut":
        text = text[:n]
    elif how == "ins":
        text = text[:n] + draw(st.sampled_from(
            ["{", "]", "\"", ",", ":", "nul", "\x00", "\ufeff"])) + text[n:]
    elif how == "append":
        text = text + draw(st.sampled_from(["}", " 1", "x", "{}", "\x00"]))
    elif how == "noise":
        text = draw(st.text(max_size=6))
    data = text.encode("utf-8")
    if how == "bytes":
        data = data[:n] + draw(st.sampled_from(
            [b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80"])) + data[n:]
    return (s, t, data, draw(st.sampled_from(["str", "bytes", "bytearray"])))


def garbled(case, ctx):
    s, t, data, form = case
    B = build(s)
    cls = B.cls(t)
    arg = {"bytes": lambda: data, "bytearray": lambda: bytearray(data),
           "str": lambda: data.decode("utf-8", "surrogateescape")}[form]()
    try:
        parsed = json.loads(data.decode("utf-8") if form != "str" else arg)
        fine = True
    except ValueError:
        fine = False
    funcs = [("from_json", lambda a: from_json(cls, a))]
    if isjson(s, t):
        funcs.append(("type()", cls))
    for name, fn in funcs:
        r = attempt(fn, arg)
        if not fine:
            check(raised(r, Exception), "%s accepts %s: %s", name,
                  short(arg), short(r))
            check(raised(r, (ValueError, TypeError)), "%s of %s: %r", name,
                  short(arg), r)
            continue
        # it still parses: as good as the data it is the text of
        w = attempt(fn, parsed)
        if isinstance(w, Raised) or isinstance(r, Raised):
            check(type(getattr(w, "exc", None)) is
                  type(getattr(r, "exc", None)),
                  "%s of %s gives %s, of its data %s", name, short(arg),
                  short(r), short(w))
        else:
            check(r == w, "%s of %s gives %s, of its data %s", name,
                  short(arg), short(r), short(w))
    ctx.hit(not fine)
    ctx.event("malformed" if not fine else "still well-formed")


# -- a document of the wrong kind ------------------------------------------------------
@st.composite
def wrongkinds(draw):
    s = draw(schemas(500, **FEAT))
    t = TOP
    if draw(st.booleans()):
        t = (draw(st.sampled_from("ld")), draw(st.sampled_from(
            [TOP, TOP, ("s", "int"), ("s", "str")])),
            draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    bad = [5, True, 1.5]
    if t[0] != "l" or isjson(s, t):
        # (a list type takes anything which is false as empty)
        bad += [0, False]
    if t[0] == "r":
        bad += [[], [1], [{}], [[]]]
    elif isjson(s, t):
        bad += [{}, {"a": 1}] if t[0] == "l" else [[], [1], [{}]]
    return (s, t, draw(st.sampled_from(bad)))


def wrongkind(case, ctx):
    s, t, bad = case
    B = build(s)
    cls = B.cls(t)
    funcs = [("from_json", lambda a: from_json(cls, a))]
    if isjson(s, t):
        funcs.append(("type()", cls))
        funcs.append(("type.from_json", cls.from_json))
    text = json.dumps(bad)
    for doc in (bad, text, text.encode(), bytearray(text.encode())):
        for name, fn in funcs:
            r = attempt(fn, clone(doc))
            check(raised(r, TypeError), "%s of %s gives %s", name,
                  short(doc), short(r))
            check(raised(r, (exc.CoerceError, exc.CollectionCoerceError,
                             exc.JsonRecordCoerceError,
                             exc.JsonCollectionCoerceError)),
                  "%s of %s gives %s", name, short(doc), short(r))
    ctx.hit(isinstance(bad, (list, dict)))
    ctx.event("%s %s" % (t[0], type(bad).__name__))


# -- keys which are not known to records that are not aware of JSON ----------------------
@st.composite
def extra_keys(draw):
    s, t, v = draw(documents())
    return (s, t, v, draw(st.lists(st.tuples(
        st.sampled_from(["zz", "", "a b", "unknown", "self", "json_data",
                         "values", "extraneous", "__class__"]),
        st.sampled_from([None, 0, "x", [1], {"a": {}}])),
        min_size=1, max_size=3)))


def plain_dicts(s, t, v, doc):
    """(field names, document) of each plain record in a document"""
    if t[0] in "ld":
        for k, x in (enumerate(v[1]) if t[0] == "l" else v[1].items()):
            for y in plain_dicts(s, t[1], x, doc[k]):
                yield y
    elif t[0] == "r":
        r = s["recs"][v[1]]
        if not r["json"]:
            yield r, doc
        for f in r["fields"]:
            if f["n"] in v[2] and jname(f) is not None and \
                    not f.get("cod"):
                for y in plain_dicts(s, f["t"], v[2][f["n"]],
                                     doc[jname(f)]):
                    yield y


def extra_key(case, ctx):
    s, t, v, new = case
    B = build(s)
    cls = B.cls(t)
    doc = full(s, t, v)
    n = 0
    for r, d in plain_dicts(s, t, v, doc):
        # (an attribute without a JSON name is no known key)
        for k, x in new:
            if k not in map(jname, r["fields"]):
                d.setdefault(k, clone(x))
                n += 1
        for f in r["fields"]:
            if jname(f) is None and f["n"] not in map(jname, r["fields"]):
                d[f["n"]] = "no value of it"
    keep = clone(doc)
    want = survives(s, t, v)
    for how in (doc, json.dumps(doc)):
        x = must_not_raise(lambda: from_json(cls, how),
                           "from_json of %s" % short(how))
        lit = B.un(t, x)
        check(lit_eq(lit, want), "from_json of %s gives %s, expected %s",
              short(how), short(lit), short(want))
    same(doc, keep, "the document after from_json")
    ctx.hit(n > 0)
    ctx.event("at %d plain records" % min(3, n and len(list(
        plain_dicts(s, t, v, full(s, t, v))))))


PARTS = [
    Part("forms", documents, forms, quick=1500),
    Part("faults", faults, fault, quick=2500),
    Part("missing", missings, missing, quick=800),
    Part("garbled", garbles, garbled, quick=800),
    Part("wrongkind", wrongkinds, wrongkind, quick=500),
    Part("extrakeys", extra_keys, extra_key, quick=700),
]
