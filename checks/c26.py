"""C26: JSON conversion hooks are used, once each, wherever they apply."""
import collections
from copy import deepcopy as clone
import sys
import types as pytypes

from hypothesis import strategies as st

from normalize import (
    DictProperty, JsonDictProperty, JsonListProperty, JsonRecord,
    JsonRecordList, ListProperty, Property, Record,
)
from normalize import exc
from normalize.coll import dict_of, list_of
from normalize.record.json import JsonRecordDict, from_json, to_json

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, same, short,
)

PROPERTY = "C26"
RULE = (
    "A case is a family of types which convert themselves to and from JSON "
    "in all documented ways (conversion functions of attributes, overridden "
    "json_to_initkwargs, json_data and from_json methods, other classes with "
    "such methods; nested in records, typed lists and dicts), a value of "
    "one of them, and the way in and out; or several attributes of one key; "
    "or one hook which raises an error.  Non-trivial: a hook is called at "
    "depth two or more, or several attributes use one key, or an error is "
    "raised by a nested hook.")

NAMES = ["a", "b", "c"]
KINDS = ["plain", "plain", "json", "json", "visible", "paged", "pageddict",
         "array", "loader", "enum", "coded"]
RECS = ("plain", "json", "visible", "loader")
SIGS = ["none", "default", "positional", "kwonly", "otherkw"]

json_value = st.recursive(
    st.sampled_from([0, 1, -7, "", "x", "text", True, 1.5]),
    lambda s: st.lists(s, max_size=2) | st.dictionaries(
        st.sampled_from(["a", "w", "k"]), s, max_size=2), max_leaves=4)


@st.composite
def families(draw):
    out = []
    for i in range(draw(st.integers(2, 5))):
        kind = draw(st.sampled_from(KINDS))
        t = {"kind": kind, "sig": draw(st.sampled_from(SIGS)),
             "own": draw(st.booleans())}
        if kind in RECS + ("array",):
            names = draw(st.lists(st.sampled_from(NAMES), unique=True,
                                  min_size=1, max_size=3))
            jns = draw(st.permutations(names))
            t["props"] = []
            for n, jn in zip(names, jns):
                ref = draw(refs(i, out))
                p = {"n": n, "ref": ref, "x": draw(st.integers(0, 5)) == 0,
                     "lazy": ref == ("any",) and draw(
                         st.integers(0, 3)) == 0,
                     "codec": draw(st.sampled_from([None, None, "wrap"]))}
                if ref[0] == "T" and out[ref[1]]["kind"] == "coded":
                    p["codec"] = "wrap"
                p["coerce"] = ref[0] == "T" and out[ref[1]]["kind"] != \
                    "coded" and draw(st.integers(0, 3)) == 0
                p["jn"] = draw(st.sampled_from([jn, "J" + jn, None])) if \
                    t["own"] else n
                if kind == "array":
                    p["jn"], p["x"], p["lazy"] = n, False, False
                if ref[0] in ("list", "dict") and (
                        p["codec"] or p["jn"] != n):
                    # JSON arguments ask for JSON collections
                    p["ref"] = ref[:2] + ("json",)
                t["props"].append(p)
        elif kind in ("paged", "pageddict"):
            t["ref"] = draw(refs(i, out, False))
        out.append(t)
    out[0]["same"] = draw(st.integers(0, 2)) == 0
    return out


@st.composite
def refs(draw, i, types, coded=True):
    usable = [j for j in range(i) if coded or types[j]["kind"] != "coded"]
    how = draw(st.sampled_from(["any", "T", "T", "T", "list", "dict"])) if \
        usable else "any"
    if how == "any":
        return ("any",) if coded else ("int",)
    j = draw(st.sampled_from(usable))
    if how == "T" or types[j]["kind"] == "coded":
        return ("T", j)
    if not coded:
        return ("T", j)
    return (how, ("T", j), draw(st.sampled_from(["plain", "json"])))


@st.composite
def literals(draw, types, ref):
    if ref[0] == "any":
        return draw(json_value)
    if ref[0] == "int":
        return draw(st.integers(-3, 9))
    if ref[0] == "list":
        return ("L", draw(st.lists(literals(types, ref[1]), max_size=2)))
    if ref[0] == "dict":
        return ("D", draw(st.dictionaries(
            st.sampled_from(["k", "l", "data"]), literals(types, ref[1]),
            max_size=2)))
    i = ref[1]
    t = types[i]
    if t["kind"] == "enum":
        return ("E", i, draw(st.sampled_from(["one", "two"])))
    if t["kind"] == "coded":
        return ("C", i, draw(st.sampled_from(["", "u", "v"])))
    if t["kind"] == "paged":
        return ("P", i, draw(st.integers(0, 3)), draw(st.lists(
            literals(types, t["ref"]), max_size=2)))
    if t["kind"] == "pageddict":
        return ("P", i, draw(st.integers(0, 3)), draw(st.dictionaries(
            st.sampled_from(["k", "l"]), literals(types, t["ref"]),
            max_size=2)))
    vals = {}
    for p in t["props"]:
        if t["kind"] == "array" or draw(st.integers(0, 3)):
            vals[p["n"]] = draw(literals(types, p["ref"]))
    unknown = {}
    if t["kind"] in ("json", "visible", "loader"):
        unknown = draw(st.dictionaries(st.sampled_from(
            ["zz", "yy", "unknown_json_keys"]), json_value, max_size=2))
    return ("T", i, vals, unknown)


@st.composite
def worlds(draw):
    types = draw(families())
    usable = [j for j, t in enumerate(types) if t["kind"] not in (
        "coded", "enum")]
    if not usable:
        types.append({"kind": "json", "sig": "none", "own": False, "props": [
            {"n": "a", "ref": ("T", len(types) - 1), "x": False,
             "lazy": False, "codec": "wrap", "jn": "a", "coerce": False}]})
        usable = [len(types) - 1]
    top = ("T", usable[-1])
    if draw(st.integers(0, 4)) == 0:
        top = (draw(st.sampled_from(["list", "dict"])), top,
               draw(st.sampled_from(["plain", "json"])))
    return (types, top, draw(literals(types, top)),
            draw(st.sampled_from(["from_json", "ctor", "method"])),
            draw(st.sampled_from(["to_json", "json_data"])),
            draw(st.booleans()))


class Enum(object):
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return type(self) is type(other) and self.v == other.v

    def __hash__(self):
        return hash(self.v)


class Boom(Exception):
    pass


BOOMS = {"value": ValueError, "type": TypeError, "attr": AttributeError,
         "key": KeyError, "boom": Boom}


_count = [0]


class World(object):
    """the types of a case, and the calls of their hooks"""
    def __init__(self, types):
        self.types = types
        # (generic collection types are made once for a name)
        _count[0] += 1
        self.name = "W%dT" % _count[0]
        # (all of one name, in different modules)
        self.same = types[0].get("same", False)
        self.modules = []
        self.log = []
        self.trap = None        # (label, detail, error)
        self.cls = []
        for i, t in enumerate(types):
            self.cls.append(getattr(self, "make_" + t["kind"])(i, t))

    def called(self, label, detail):
        self.log.append((label, detail))
        if self.trap and repr(self.trap[:2]) == repr((label, detail)):
            raise self.trap[2]

    # -- classes --
    def type_of(self, ref):
        if ref[0] == "T":
            return self.cls[ref[1]]
        if ref[0] == "int":
            return int
        item = self.type_of(ref[1])
        if ref[2] == "plain":
            return (list_of if ref[0] == "list" else dict_of)(item)
        return (JsonListProperty if ref[0] == "list" else JsonDictProperty)(
            of=item).valuetype

    def prop(self, i, p):
        label, kw = "T%d.%s" % (i, p["n"]), {}
        ref = p["ref"]
        if p["jn"] != p["n"]:
            kw["json_name"] = p["jn"]
        if p["x"]:
            kw["extraneous"] = True
        if p["codec"]:
            def json_in(d):
                self.called(label + " in", clone(d))
                if ref[0] == "T" and self.types[ref[1]]["kind"] == "coded":
                    return self.cls[ref[1]](d["w"])
                return d["w"]

            def json_out(x):
                self.called(label + " out", self.un(ref, x))
                if not hasattr(x, "json_data") and hasattr(x, "v"):
                    return {"w": x.v}
                if ref[0] == "T" and self.types[ref[1]]["sig"] == \
                        "positional" and self.inner(ref) == "dflt":
                    return {"w": x.json_data("dflt")}
                return {"w": x.json_data() if hasattr(x, "json_data") else
                        to_json(x, False)}

            kw["json_in"], kw["json_out"] = json_in, json_out
        if p["lazy"]:
            def default():
                self.called(label + " lazy", None)
                return "lazy"
            kw["lazy"], kw["default"] = True, default
        if p["coerce"]:
            # what can make itself from JSON is already of the type then
            def coerce(d):
                self.called(label + " coerce", clone(d))
                return from_json(self.type_of(ref), d)

            kw["coerce"] = coerce
        if ref[0] == "T":
            return Property(isa=self.type_of(ref), **kw)
        if ref[0] in ("list", "dict"):
            cls = {("list", "plain"): ListProperty,
                   ("dict", "plain"): DictProperty,
                   ("list", "json"): JsonListProperty,
                   ("dict", "json"): JsonDictProperty}[ref[0], ref[2]]
            return cls(of=self.type_of(ref[1]), **kw)
        return Property(**kw)

    def record(self, i, t, base, more):
        attrs = {p["n"]: self.prop(i, p) for p in t.get("props", ())}
        attrs.update(more)
        return self.declare(i, base, attrs)

    def declare(self, i, base, attrs):
        attrs["__module__"], name = __name__, self.name + str(i)
        if self.same:
            name = self.name
            attrs["__module__"] = "%s.%s%d" % (__name__, name, i)
            sys.modules[attrs["__module__"]] = pytypes.ModuleType(name)
            self.modules.append(attrs["__module__"])
        return type(base)(name, (base,), attrs)

    def signature(self, i, t, fn):
        """a json_data method; fn gets the record and extraneous, or None"""
        label = "T%d data" % i

        def call(me, ext):
            self.called(label, ext)
            return fn(me, ext)

        if t["sig"] == "none":
            return lambda me: call(me, None)
        if t["sig"] == "default":
            def json_data(me, extraneous="dflt"):
                return call(me, extraneous)
        elif t["sig"] == "positional":
            def json_data(me, extraneous):
                return call(me, extraneous)
        elif t["sig"] == "kwonly":
            def json_data(me, *, extraneous="dflt"):
                return call(me, extraneous)
        else:
            def json_data(me, *, other=1):
                return call(me, None)
        return json_data

    def make_plain(self, i, t):
        return self.record(i, t, Record, {})

    def make_json(self, i, t, base=JsonRecord, **more):
        if t["own"]:
            def initkwargs(cls, data, kwargs):
                self.called("T%d initkwargs" % i, clone(data))
                return super(self.cls[i], cls).json_to_initkwargs(
                    data, kwargs)
            more["json_to_initkwargs"] = classmethod(initkwargs)
        return self.record(i, t, base, more)

    def make_visible(self, i, t):
        return self.make_json(i, t, unknown_json_keys=Property(
            json_name=None))

    def make_paged(self, i, t):
        base = JsonRecordList if t["kind"] == "paged" else JsonRecordDict

        def initkwargs(cls, data, kwargs):
            self.called("T%d initkwargs" % i, clone(data))
            kwargs["next"] = data["paging"]
            return super(self.cls[i], cls).json_to_initkwargs(
                data["data"], kwargs)

        return self.record(i, t, base, {
            "itemtype": self.type_of(t["ref"]), "next": Property(isa=int),
            "json_to_initkwargs": classmethod(initkwargs),
            "json_data": self.signature(i, t, lambda me, ext: {
                "data": super(self.cls[i], me).json_data(
                    extraneous=ext is True),
                "paging": me.next})})

    make_pageddict = make_paged

    def make_array(self, i, t):
        names = [p["n"] for p in t["props"]]

        def initkwargs(cls, data, kwargs):
            self.called("T%d initkwargs" % i, clone(data))
            return super(self.cls[i], cls).json_to_initkwargs(
                dict(zip(names, data)), kwargs)

        def data(me, ext):
            d = super(self.cls[i], me).json_data(extraneous=ext is True)
            return [d[n] for n in names]

        return self.record(i, t, JsonRecord, {
            "json_to_initkwargs": classmethod(initkwargs),
            "json_data": self.signature(i, t, data)})

    def make_loader(self, i, t):
        def load(cls, data):
            self.called("T%d from_json" % i, clone(data))
            return cls(data["wrapped"])

        return self.make_json(
            i, t, from_json=classmethod(load),
            json_data=self.signature(i, t, lambda me, ext: {
                "wrapped": super(self.cls[i], me).json_data(
                    extraneous=ext is True)}))

    def make_enum(self, i, t):
        def load(cls, data):
            self.called("T%d from_json" % i, clone(data))
            return cls(data)

        return self.declare(i, Enum, {
            "from_json": classmethod(load),
            "json_data": self.signature(i, t, lambda me, ext: me.v)})

    def make_coded(self, i, t):
        return self.declare(i, Enum, {})

    # -- values --
    def mk(self, ref, v):
        if ref[0] in ("any", "int"):
            return clone(v)
        if ref[0] == "list":
            return self.type_of(ref)(values=[
                self.mk(ref[1], x) for x in v[1]])
        if ref[0] == "dict":
            return self.type_of(ref)(values={
                k: self.mk(ref[1], x) for k, x in v[1].items()})
        t, cls = self.types[v[1]], self.cls[v[1]]
        if v[0] in "EC":
            return cls(v[2])
        if v[0] == "P":
            return cls(next=v[2], values=[
                self.mk(t["ref"], x) for x in v[3]] if t["kind"] == "paged"
                else {k: self.mk(t["ref"], x) for k, x in v[3].items()})
        kw = {p["n"]: self.mk(p["ref"], v[2][p["n"]]) for p in t["props"]
              if p["n"] in v[2]}
        if v[3]:
            kw["unknown_json_keys"] = clone(v[3])
        return cls(**kw)

    def un(self, ref, x):
        if ref[0] in ("any", "int"):
            return clone(x)
        if ref[0] == "list":
            return ("L", [self.un(ref[1], y) for y in x])
        if ref[0] == "dict":
            return ("D", {k: self.un(ref[1], y) for k, y in x.items()})
        i = ref[1]
        t = self.types[i]
        check(type(x) is self.cls[i], "%s is no %s", short(x), self.cls[i])
        if t["kind"] in ("enum", "coded"):
            return ("E" if t["kind"] == "enum" else "C", i, x.v)
        if t["kind"] == "paged":
            return ("P", i, x.next, [self.un(t["ref"], y) for y in x])
        if t["kind"] == "pageddict":
            return ("P", i, x.next, {
                k: self.un(t["ref"], y) for k, y in x.items()})
        return ("T", i, {
            p["n"]: self.un(p["ref"], x.__dict__[p["n"]])
            for p in t["props"] if p["n"] in x.__dict__},
            clone(x.__dict__.get("unknown_json_keys", {})))

    # -- the model --
    def out(self, ref, v, ext, log, top=None):
        """JSON data; the calls go to the log.  top: "to_json" or
        "json_data" for the outermost value"""
        if ref[0] in ("any", "int"):
            return clone(v)
        if ref[0] == "list":
            return [self.out(ref[1], x, ext, log) for x in v[1]]
        if ref[0] == "dict":
            return {k: self.out(ref[1], x, ext, log)
                    for k, x in v[1].items()}
        t = self.types[v[1]]
        if v[0] == "C":
            return v[2]
        hook = t["kind"] in ("paged", "pageddict", "array", "loader", "enum")
        if hook and top != "to_json":
            if t["sig"] in ("none", "otherkw"):
                ext = None
            log.append(("T%d data" % v[1], ext))
            ext = ext is True
        if v[0] == "E":
            return v[2]
        if v[0] == "P":
            d = [self.out(t["ref"], x, ext, log) for x in v[3]] if \
                t["kind"] == "paged" else {
                    k: self.out(t["ref"], x, ext, log)
                    for k, x in v[3].items()}
            return d if top == "to_json" else {"data": d, "paging": v[2]}
        d = {}
        for p in t["props"]:
            if p["x"] and not ext or p["jn"] is None:
                continue
            label = "T%d.%s" % (v[1], p["n"])
            if p["n"] in v[2]:
                x = v[2][p["n"]]
            elif p["lazy"]:
                log.append((label + " lazy", None))
                v[2][p["n"]] = x = "lazy"
            else:
                continue
            if p["codec"]:
                log.append((label + " out", clone(x)))
                d[p["jn"]] = {"w": self.out(p["ref"], x, self.inner(
                    p["ref"]), log)}
            else:
                d[p["jn"]] = self.out(p["ref"], x, ext, log)
        if top != "to_json" and (ext or t["kind"] == "visible"):
            for k, x in v[3].items():
                d.setdefault(k, clone(x))
        if top == "to_json":
            return d
        if t["kind"] == "array":
            return [d[p["n"]] for p in t["props"]]
        return {"wrapped": d} if t["kind"] == "loader" else d

    def inner(self, ref):
        """what json_out() asks for: x.json_data() or to_json(x, False)"""
        if ref[0] == "T" and self.types[ref[1]]["kind"] in (
                "paged", "pageddict", "array", "loader", "enum"):
            return "dflt"
        return False

    def into(self, ref, doc, log, path, top=None):
        """the literal made from a document; the log has paths, too"""
        if ref[0] in ("any", "int"):
            return clone(doc)
        if ref[0] == "list":
            return ("L", [self.into(ref[1], x, log, path + [j])
                          for j, x in enumerate(doc)])
        if ref[0] == "dict":
            return ("D", {k: self.into(ref[1], x, log, path + [k])
                          for k, x in doc.items()})
        i = ref[1]
        t = self.types[i]
        if t["kind"] in ("enum", "loader") and top in (None, "method"):
            log.append(("T%d from_json" % i, clone(doc), path))
            if t["kind"] == "enum":
                return ("E", i, doc)
            doc = doc["wrapped"]
        if t["kind"] in ("paged", "pageddict", "array") or t["own"] and \
                t["kind"] in ("json", "visible", "loader"):
            log.append(("T%d initkwargs" % i, clone(doc), path))
        if t["kind"] in ("paged", "pageddict"):
            d = doc["data"]
            return ("P", i, doc["paging"], [
                self.into(t["ref"], x, log, path + [j])
                for j, x in enumerate(d)] if t["kind"] == "paged" else {
                    k: self.into(t["ref"], x, log, path + [k])
                    for k, x in d.items()})
        if t["kind"] == "array":
            doc = dict(zip((p["n"] for p in t["props"]), doc))
        vals, known = {}, set()
        for p in t["props"]:
            if p["jn"] is None or p["jn"] not in doc:
                continue
            known.add(p["jn"])
            x, here = doc[p["jn"]], path + [p["jn"]]
            if p["codec"]:
                log.append(("T%d.%s in" % (i, p["n"]), clone(x), here))
                x = x["w"]
            if p["coerce"] and self.types[p["ref"][1]]["kind"] == "plain":
                log.append(("T%d.%s coerce" % (i, p["n"]), clone(x), here))
            if p["ref"][0] == "T" and self.types[p["ref"][1]]["kind"] == \
                    "coded":
                vals[p["n"]] = ("C", p["ref"][1], x)
            else:
                vals[p["n"]] = self.into(p["ref"], x, log, here)
        unknown = {} if t["kind"] in ("plain", "array") else {
            k: clone(x) for k, x in doc.items() if k not in known}
        return ("T", i, vals, unknown)


def is_json(types, ref):
    if ref[0] == "T":
        return types[ref[1]]["kind"] != "plain"
    return ref[2] == "json"


def entry(W, ref, how):
    cls = W.type_of(ref)
    if how == "from_json" or not is_json(W.types, ref):
        return "from_json", lambda d: from_json(cls, d)
    if how == "ctor":
        return "ctor", cls
    return "method", cls.from_json


def leave(W, ref, x, how, ext):
    """(model's name of it, function)"""
    if how == "to_json" or not is_json(W.types, ref):
        return "to_json", lambda: to_json(x, ext)
    if ref[0] == "T" and W.types[ref[1]]["kind"] in (
            "paged", "pageddict", "array", "loader") and \
            W.types[ref[1]]["sig"] in ("none", "otherkw"):
        return "json_data", lambda: x.json_data()
    return "json_data", lambda: x.json_data(extraneous=ext)


def logs(got, want, what):
    got, want = sorted(map(repr, got)), sorted(map(repr, want))
    check(got == want, "%s: the hooks called are %s, expected %s", what,
          short(got, 900), short(want, 900))


def world(case, ctx):
    types, top, v, way_in, way_out, ext = case
    W = World(types)
    x = W.mk(top, v)
    W.log.clear()
    how, fn = leave(W, top, x, way_out, ext)
    what = "%s(%s) of %s" % (how, ext, short(v, 600))
    lit, want_log = clone(v), []
    want = W.out(top, lit, ext, want_log, how)
    got = must_not_raise(fn, what)
    same(got, want, what)
    logs(W.log, want_log, what)
    same(W.un(top, x), lit, "the record after " + what)
    ctx.hit(len(want_log) > 1)
    for label, _ in want_log:
        ctx.event(label.split(" ")[1])

    # and in: the document with everything
    lit = clone(v)
    doc = W.out(top, lit, True, [], None)
    how, fn = entry(W, top, way_in)
    if top[0] == "T" and types[top[1]]["kind"] == "loader" and \
            how != "method":
        doc = doc["wrapped"]
    keep = clone(doc)
    want_log = []
    want = W.into(top, doc, want_log, [], how)
    W.log.clear()
    what = "%s of %s" % (how, short(doc, 600))
    y = must_not_raise(lambda: fn(doc), what)
    same(W.un(top, y), want, what)
    logs(W.log, [e[:2] for e in want_log], what)
    same(doc, keep, "the document after " + what)
    for label, _, _ in want_log:
        ctx.event(label.split(" ")[1])


# -- errors of hooks --------------------------------------------------------------
@st.composite
def broken(draw):
    return (draw(worlds()), draw(st.integers(0, 10 ** 4)),
            draw(st.sampled_from(sorted(BOOMS))))


def broken_hook(case, ctx):
    (types, top, v, way_in, way_out, ext), n, boom = case
    W = World(types)
    x = W.mk(top, v)
    how, fn = leave(W, top, x, way_out, ext)
    log, lit = [], clone(v)
    W.out(top, lit, ext, log, how)
    log = [e for e in log if not e[0].endswith("lazy")]
    if log:
        label, detail = log[n % len(log)]
        e = BOOMS[boom]("boom")
        W.trap = (label, detail, e)
        r = attempt(fn)
        check(isinstance(r, Raised) and r.exc is e,
              "%s(%s) of %s with %r raised by '%s': %s", how, ext, short(v),
              e, label, short(r))
        now = W.un(top, x)
        W.trap = None
        got = must_not_raise(fn, "another time")
        same(got, W.out(top, now, ext, [], how), "the output without error")
        ctx.event("out " + boom)
    doc = W.out(top, clone(v), True, [], None)
    how, fn = entry(W, top, way_in)
    if top[0] == "T" and types[top[1]]["kind"] == "loader" and \
            how != "method":
        doc = doc["wrapped"]
    log = []
    W.into(top, doc, log, [], how)
    # (errors of coerce functions, and under them, are reported as such)
    inside = [p for la, _, p in log if la.endswith("coerce")]
    # (but not those of the input function before it)
    out = [repr(e[:2]) for e in log if any(
        e[2][:len(p)] == p and (len(p) < len(e[2]) or
                                not e[0].endswith(" in")) for p in inside)]
    log = [e for e in log if repr(e[:2]) not in out]
    if not log:
        return
    label, detail, path = log[n % len(log)]
    paths = [p for la, d, p in log if repr((la, d)) == repr((label, detail))]
    e = BOOMS[boom]("boom")
    W.trap = (label, detail, e)
    keep = clone(doc)
    r = attempt(lambda: fn(doc))
    what = "%s of %s with %r raised by '%s' at %s: %s" % (
        how, short(doc), e, label, path, short(r))
    check(isinstance(r, Raised), what)
    if [] in paths and len(paths) == 1:
        check(r.exc is e, what)
    else:
        check(isinstance(r.exc, exc.JsonConversionError) and
              r.exc.sub_exception is e or r.exc is e and [] in paths, what)
        check(list(r.exc.error_fs.selectors) in paths, "%s\nthe path is %s",
              what, r.exc.error_fs.selectors)
        check("boom" in str(r.exc), what)
        ctx.hit()
    same(doc, keep, "the document after " + what)
    ctx.event("in " + boom)


# -- several attributes of one key; keywords ----------------------------------------
VIEWS = {"len": lambda x: len(repr(x)), "str": str, "type": lambda x: type(x).__name__,
         "pair": lambda x: [x, x]}


@st.composite
def views(draw):
    props = {}
    for n in draw(st.lists(st.sampled_from("abcdef"), unique=True,
                           min_size=1, max_size=5)):
        props[n] = (draw(st.sampled_from(["default", "a", "b", "K", None])),
                    draw(st.sampled_from([None] + sorted(VIEWS))),
                    draw(st.booleans()))
    return (draw(st.booleans()), props, draw(st.dictionaries(
        st.sampled_from(["a", "b", "c", "K", "zz"]), st.sampled_from(
            ["", "xy", [1], {"k": 1}, "3", None, None, False, 0, [], {}]),
        max_size=4)),
        draw(st.lists(st.sampled_from("abcdef"), max_size=2)),
        draw(st.sampled_from(["from_json", "ctor", "method", "keywords",
                              "keywords"])))


def view(case, ctx):
    json, props, doc, keys, how = case
    calls = []

    def hook(n, fn):
        def json_in(x):
            calls.append((n, clone(x)))
            return fn(x)
        return json_in

    attrs, names = {"__module__": __name__}, {}
    for n, (jn, fn, coll) in props.items():
        kw = {}
        if jn != "default":
            kw["json_name"] = jn
        if fn:
            kw["json_in"] = hook(n, VIEWS[fn])
            kw["json_out"] = hook(n + " out", lambda x: {"out": repr(x)})
        names[n] = n if jn == "default" else jn
        attrs[n] = Property(**kw)
    base = JsonRecord if json else Record
    cls = type(base)("View", (base,), attrs)
    given = {n: "given" for n in keys if n in props} if \
        how == "keywords" and json else {}
    want, used, want_calls = dict(given), set(), []
    for n, jn in names.items():
        if jn is None or jn not in doc:
            continue
        used.add(jn)
        if n not in given:
            fn = props[n][1]
            want[n] = VIEWS[fn](doc[jn]) if fn else doc[jn]
            if fn:
                want_calls.append((n, doc[jn]))
    if json:
        unknown = {k: x for k, x in doc.items() if k not in used}
        if unknown:
            want["unknown_json_keys"] = unknown
    keep = clone(doc)
    what = "%s of %s with keywords %s by attributes %s" % (
        how, doc, given, props)
    if not json or how == "from_json":
        x = must_not_raise(lambda: from_json(cls, doc), what)
    elif how == "method":
        x = must_not_raise(lambda: cls.from_json(doc), what)
    else:
        x = must_not_raise(lambda: cls(doc, **given), what)
    same(dict(x.__dict__), want, what)
    logs(calls, want_calls, what)
    same(doc, keep, "the document after " + what)
    # attributes made from python values are not converted
    calls.clear()
    y = cls(**{n: v for n, v in want.items()})
    same(dict(y.__dict__), want, "from keywords")
    check(not calls, "json_in is called for keywords: %s", calls)
    # ... and out again, whatever the values are
    vals = {n: doc[jn] if jn in doc else None for n, jn in names.items()}
    z = cls(**vals)
    out = must_not_raise(lambda: to_json(z), "output")
    many = collections.Counter(names.values())
    for n, jn in names.items():
        if jn is None:
            continue
        fn = props[n][1]
        if fn:
            check(len([c for c in calls if c[0] == n + " out"]) == 1,
                  "json_out of %s, which is %r, called: %s", n, vals[n], calls)
        if many[jn] == 1:
            same(out.get(jn, "missing"),
                 {"out": repr(vals[n])} if fn else vals[n],
                 "%s in the output of %s" % (n, vals))
    used = [jn for n, jn in names.items() if jn in doc and jn is not None]
    ctx.hit(len(used) > len(set(used)) or bool(given))
    ctx.event("shared" if len(used) > len(set(used)) else "not shared")


PARTS = [
    Part("hooks", worlds, world, quick=2500),
    Part("broken", broken, broken_hook, quick=2000),
    Part("views", views, view, quick=1200),
]
