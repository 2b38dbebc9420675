"""C22: auto JSON records expose the whole input document by attribute,
losslessly."""
import copy
import functools
import json
import pickle

from hypothesis import strategies as st

from lib.harness import Part, Raised, attempt, check, short, strict_eq
from normalize import (
    AutoJsonRecord, DateProperty, IntProperty, ListProperty,
    NCAutoJsonRecord, Property, StringProperty, from_json, to_json,
)

PROPERTY = "C22"
RULE = (
    "A case is a JSON object (nested objects, lists of objects, of scalars, "
    "mixed, nested and empty lists; keys in snake_case, camelCase and other "
    "forms), a record type (the converting or unconverting auto record, or a "
    "type deriving from it with declared attributes), a form (object, text, "
    "bytes, from_json) and a history of assignments, deletions and reads on "
    "records anywhere in it.  Everything is read through attributes and "
    "marshalled out, compared with the document.  Non-trivial: it has an "
    "object inside a list or object, or the history changes something.")

WORDS = ["a", "b", "foo", "bar", "x1", "n2", "id", "URL", "K", "é", "Éa"]
OWN = ["shortName", "size", "when", "parts"]
RESERVED = set(dir(AutoJsonRecord)) | {"json_data"}


@functools.lru_cache(None)
def keys():
    def camel(ws):
        return ws[0] + "".join(w[:1].upper() + w[1:] for w in ws[1:])
    ws = st.lists(st.sampled_from(WORDS), min_size=1, max_size=3)
    return st.one_of(
        ws.map(camel), ws.map(camel), ws.map("_".join),
        st.sampled_from(["", "a b", "-", "$ref", "_x", "aB", "aBC", "aBCd",
                         "ABc", "a_B", "fooBar", "foo_bar", "x_", "aB_c"]),
        st.text("aAbB_1", max_size=6),
    ).filter(lambda k: k_in(k) not in RESERVED and k not in RESERVED and
             not k.startswith("__"))


def k_in(key):
    out = ""
    for i, c in enumerate(key):
        if i and "A" <= c <= "Z" and (
                "a" <= key[i - 1] <= "z" or key[i - 1].isdecimal()):
            out += "_" + c.lower()
        else:
            out += c
    return out


def k_out(name):
    out, i = "", 0
    while i < len(name):
        c = name[i]
        if ("a" <= c <= "z" or c.isdecimal()) and \
                name[i + 1:i + 2] == "_" and "a" <= name[i + 2:i + 3] <= "z":
            out += c + name[i + 2].upper()
            i += 3
        else:
            out += c
            i += 1
    return out


def key_rules(nc):
    return (lambda k: k, lambda k: k) if nc else (k_in, k_out)


scalars = st.one_of(
    st.none(), st.booleans(), st.integers(-9, 99), st.floats(
        allow_nan=False, allow_infinity=False), st.text(max_size=4),
    st.sampled_from(["2004-05-06", "7", 2 ** 60, ""]))
# declared attributes are converted on the way in
DECLARED = {
    "shortName": st.text(max_size=4), "size": st.integers(-9, 9),
    "when": st.sampled_from(["2004-05-06", "1999-12-31"]),
    "parts": st.lists(st.integers(0, 5), max_size=3),
}


class Auto(AutoJsonRecord):
    short_name = StringProperty(json_name="shortName")
    size = IntProperty(default=0)
    when = DateProperty()
    parts = ListProperty(of=int)


class NCAuto(NCAutoJsonRecord):
    short_name = StringProperty(json_name="shortName")
    size = IntProperty(default=0)
    when = DateProperty()
    parts = ListProperty(of=int)


class Plain(AutoJsonRecord):
    raw = Property(json_name="someRaw")


class Sub(Auto):
    extra = Property(isa=AutoJsonRecord)


CLASSES = {"auto": AutoJsonRecord, "nc": NCAutoJsonRecord, "own": Auto,
           "ncown": NCAuto, "raw": Plain, "sub": Sub}


@functools.lru_cache(None)
def docs(nc):
    inn, out = key_rules(nc)

    def tidy(d):
        # no two keys of one name
        seen, r = set(), {}
        for k, v in d.items():
            if inn(k) not in seen:
                seen.add(inn(k))
                r[k] = v
        return r
    return st.recursive(
        scalars, lambda x: st.one_of(
            st.dictionaries(keys(), x, max_size=4).map(tidy),
            st.dictionaries(keys(), x, max_size=4).map(tidy),
            st.lists(x, max_size=3),
            st.lists(st.dictionaries(keys(), x, max_size=3).map(tidy),
                     min_size=1, max_size=3)), max_leaves=12)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(sorted(CLASSES)))
    nc = kind.startswith("nc")
    inn, _ = key_rules(nc)
    doc, seen = {}, {"short_name", "size", "when", "parts", "raw", "extra",
                     "someRaw"} | set(OWN)
    for k in draw(st.lists(keys(), max_size=5)):
        if inn(k) not in seen and k not in seen:
            seen.add(inn(k))
            doc[k] = draw(docs(nc))
    if kind not in ("auto", "nc", "raw"):
        for k in draw(st.lists(st.sampled_from(OWN), unique=True)):
            doc[k] = draw(DECLARED[k])
    if kind == "raw" and draw(st.booleans()):
        doc["someRaw"] = draw(docs(True))
    if kind == "sub" and draw(st.booleans()):
        doc["extra"] = draw(st.dictionaries(keys(), scalars, max_size=2))
        doc["extra"] = {k: v for n, (k, v) in enumerate(
            doc["extra"].items()) if n == 0}
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["set", "set", "del", "get", "setown",
                                  "delown", "setobj"]))
        ops.append((k, draw(st.integers(0, 9)), draw(st.integers(0, 5)),
                    draw(scalars if k != "setown" else st.integers(0, 9)),
                    draw(st.sampled_from(["q", "newName", "new_name", "zz9",
                                          "Q"]))))
    return {"kind": kind, "doc": doc, "form": draw(st.sampled_from(
        ["obj", "obj", "text", "bytes", "from_json", "from_json text",
         "method"])), "ops": ops, "copy": draw(st.sampled_from(
             ["", "", "", "copy", "deepcopy", "pickle"]))}


# -- what it should look like ------------------------------------------------------
# ("rec", kind, declared {name: value}, {python name: node}), ("list", [node]),
# ("val", value)
def model(doc, nc):
    inn, _ = key_rules(nc)
    if isinstance(doc, dict):
        return ("rec", "nc" if nc else "auto", {}, {
            inn(k): model(v, nc) for k, v in doc.items()})
    if isinstance(doc, list):
        return ("list", [model(x, nc) for x in doc])
    return ("val", doc)


def model_top(kind, doc):
    import datetime
    nc = kind.startswith("nc")
    doc = dict(doc)
    own = {}
    if kind in ("own", "ncown", "sub"):
        own["size"] = 0
        for k, n in (("shortName", "short_name"), ("size", "size"),
                     ("when", "when"), ("parts", "parts")):
            if k in doc:
                v = doc.pop(k)
                own[n] = datetime.date(*map(int, v.split("-"))) if \
                    k == "when" else v
        if kind == "sub" and "extra" in doc:
            own["extra"] = model(doc.pop("extra"), False)
    if kind == "raw" and "someRaw" in doc:
        own["raw"] = doc.pop("someRaw")
    m = model(doc, nc)
    return ("rec", kind, own, m[3])


def m_json(node):
    """what it marshals out as"""
    if node[0] == "val":
        return plain_json(node[1])
    if node[0] == "list":
        return [m_json(x) for x in node[1]]
    _, out = key_rules(node[1].startswith("nc"))
    r = {}
    for n, v in node[2].items():
        if n == "raw":
            r["someRaw"] = plain_json(v)
        elif n == "extra":
            r["extra"] = m_json(v)
        elif n == "when":
            r["when"] = v.isoformat()
        else:
            r["shortName" if n == "short_name" else n] = v
    for n, x in node[3].items():
        k = out(n)
        if k not in r:
            r[k] = m_json(x)
    return r


def plain_json(v):
    if isinstance(v, dict):
        return {k: plain_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain_json(x) for x in v]
    if type(v) is int and abs(v) > 2 ** 50:
        return str(v)
    return v


def look(x, node, path):
    """x, read by attribute, is what the model says"""
    if node[0] == "val":
        check(strict_eq(x, node[1]), "%s reads %s, not %s", path, short(x),
              short(node[1]))
        return
    if node[0] == "list":
        check(not isinstance(x, (str, dict)) and hasattr(x, "__len__"),
              "%s reads %s", path, short(x))
        check(len(x) == len(node[1]), "%s has %d items: %s", path, len(x),
              short(x))
        for i, n in enumerate(node[1]):
            look(x[i], n, "%s[%d]" % (path, i))
        check(len(list(x)) == len(node[1]), "%s: iteration", path)
        return
    check(isinstance(x, CLASSES[node[1]]), "%s is %s", path, short(x))
    if node[1] == "auto":
        check(not isinstance(x, NCAutoJsonRecord), "%s is %s", path, short(x))
    for n, v in node[2].items():
        got = attempt(getattr, x, n)
        check(not isinstance(got, Raised), "%s.%s: %r", path, n, got)
        if n == "extra":
            look(got, v, path + ".extra")
        elif n == "parts":
            check(list(got) == v, "%s.parts: %s", path, short(got))
        else:
            check(strict_eq(got, v), "%s.%s reads %s", path, n, short(got))
    for n, v in node[3].items():
        got = attempt(getattr, x, n)
        check(not isinstance(got, Raised), "%s.%s: %r", path, n, got)
        look(got, v, "%s.%s" % (path, n))
        check(hasattr(x, n), "%s.%s isn't there", path, n)
    for n in ("no_such", "noSuch", "size", "short_name", "q"):
        if n not in node[2] and n not in node[3]:
            got = attempt(getattr, x, n)
            check(isinstance(got, Raised) and isinstance(
                got.exc, AttributeError), "%s.%s: %s", path, n, short(got))
            check(getattr(x, n, "dflt") == "dflt" and not hasattr(x, n),
                  "%s.%s: default", path, n)


def records(x, node):
    """the records in it with their nodes"""
    if node[0] == "list":
        return [p for i, n in enumerate(node[1]) for p in records(x[i], n)]
    if node[0] == "rec":
        r = [(x, node)]
        for n in sorted(node[3]):
            r += records(getattr(x, n), node[3][n])
        return r
    return []


def auto(case, ctx):
    kind, doc = case["kind"], case["doc"]
    cls = CLASSES[kind]
    given = copy.deepcopy(doc)
    text = json.dumps(doc)
    form = case["form"]
    make = {
        "obj": lambda: cls(given), "text": lambda: cls(text),
        "bytes": lambda: cls(text.encode()),
        "from_json": lambda: from_json(cls, given),
        "from_json text": lambda: from_json(cls, text),
        "method": lambda: cls.from_json(given)}[form]
    rec = attempt(make)
    check(not isinstance(rec, Raised), "%s: %r", form, rec)
    check(given == doc, "the document given changed: %s", short(given))
    node = model_top(kind, doc)
    ctx.hit(any(isinstance(v, (dict, list)) and any(
        isinstance(x, (dict, list)) for x in (
            v.values() if isinstance(v, dict) else v))
        for v in doc.values()))
    whole(rec, node, cls, kind)
    out = rec.json_data()
    if not kind.startswith("nc"):
        rules = invertible(doc, kind)
    else:
        rules = True
    if rules:
        want = dict(plain_json(doc))
        if kind in ("own", "ncown", "sub"):
            want.setdefault("size", 0)
        check(strict_eq(out, want), "marshals out as %s",
              short(out))
        ctx.event("invertible")
    if case["copy"]:
        other = attempt({
            "copy": lambda: copy.copy(rec),
            "deepcopy": lambda: copy.deepcopy(rec),
            "pickle": lambda: pickle.loads(pickle.dumps(rec))}[case["copy"]])
        check(not isinstance(other, Raised), "%s: %r", case["copy"], other)
        check(other == rec and type(other) is cls, "%s differs: %s",
              case["copy"], short(other))
        whole(other, node, cls, kind)
        if case["copy"] != "copy":
            rec = other

    for n, (op, which, i, v, name) in enumerate(case["ops"]):
        recs = records(rec, node)
        x, m = recs[which % len(recs)]
        names = sorted(m[3])
        own = sorted(set(m[2]) & {"size", "short_name"})
        what = "step %d %s %s" % (n, op, name)
        if op in ("set", "setobj"):
            if names and i % 2:
                name = names[i % len(names)]
            if op == "setobj":
                v = {"in": [v]}
            r = attempt(setattr, x, name, v)
            check(not isinstance(r, Raised), "%s: %r", what, r)
            m[3][name] = ("val", v)
            check(getattr(x, name) is v or strict_eq(getattr(x, name), v),
                  "%s: reads %s", what, short(getattr(x, name)))
            ctx.hit()
        elif op == "del":
            if names and i:
                name = names[i % len(names)]
            r = attempt(delattr, x, name)
            if name in m[3]:
                check(not isinstance(r, Raised), "%s: %r", what, r)
                del m[3][name]
                ctx.hit()
            else:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, AttributeError), "%s: %s", what, short(r))
        elif op == "setown" and own:
            name = own[i % len(own)]
            r = attempt(setattr, x, name, str(v))
            check(not isinstance(r, Raised), "%s: %r", what, r)
            m[2][name] = str(v) if name == "short_name" else v
            r = attempt(setattr, x, "size", "junk")
            check(isinstance(r, Raised), "%s: no type check", what)
        elif op == "delown" and own:
            name = own[i % len(own)]
            if name == "size":
                continue
            r = attempt(delattr, x, name)
            check(not isinstance(r, Raised), "%s: %r", what, r)
            del m[2][name]
        whole(rec, node, cls, kind)
    ctx.event(kind)


def whole(rec, node, cls, kind):
    look(rec, node, kind)
    want = m_json(node)
    for how, fn in (("json_data()", rec.json_data),
                    ("json_data(True)", lambda: rec.json_data(True)),
                    ("json_data(extraneous)", lambda: rec.json_data(
                        extraneous=True)),
                    ("to_json", lambda: to_json({"r": rec})["r"]),
                    ("to_json list", lambda: to_json([rec])[0])):
        out = attempt(fn)
        check(not isinstance(out, Raised), "%s: %r", how, out)
        check(strict_eq(out, want), "%s: %s, not %s", how,
              short(out), short(want))
    check(isinstance(attempt(json.dumps, rec.json_data()), str),
          "not JSON: %s", short(rec.json_data()))


def invertible(doc, kind, top=True):
    """all keys of the document convert back"""
    if isinstance(doc, dict):
        return all(
            (top and k in OWN + ["someRaw", "extra"] or k_out(k_in(k)) == k)
            and (top and k == "someRaw" or invertible(v, kind, False))
            for k, v in doc.items())
    if isinstance(doc, list):
        return all(invertible(x, kind, False) for x in doc)
    return True


PARTS = [
    Part("auto", cases, auto, quick=4000),
]
