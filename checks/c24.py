"""C24: every rejection is an error of the documented class which tells what
was wrong."""
import operator
import traceback

from hypothesis import strategies as st

import normalize
from normalize import (
    DictCollection, DictProperty, FieldSelector, JsonDictProperty,
    JsonListProperty, JsonProperty, JsonRecord, ListCollection, ListProperty,
    Property, Record, SafeProperty,
)
from normalize import exc
from normalize.coll import Collection, dict_of, list_of
from normalize.diff import DiffOptions, diff_iter
from normalize.property import make_property_type
from normalize.record.json import JsonRecordDict, JsonRecordList
from normalize.subtype import subtype
from normalize.visitor import VisitorPattern

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, same, short,
)

PROPERTY = "C24"
RULE = (
    "A case is a way to go wrong (a value that fails its type, coercion, "
    "check or requirement at construction, assignment, in a collection, in a "
    "JSON document or a cast; a wrong declaration; a path that leads "
    "nowhere; options given twice), with a generated value (texts with "
    "braces, percent signs and line breaks, nested data, objects), names and "
    "the error the user's own function raises; or a user-made error class "
    "with a generated template and arguments.  Non-trivial: an error is "
    "raised which carries the value.")


# -- values ------------------------------------------------------------------------
class Thing(object):
    """something odd"""
    def __repr__(self):
        return "<a {thing} 100%s>"


class Rec(Record):
    a = Property()
    b = Property(isa=int)


THING = Thing()
TEXTS = ["", "x", "{", "}", "{}", "{0}", "{x!r}", "{passed}", "{{}}", "%s",
         "%(a)s", "a\nb", "é ☃", "a'b\"c", "\\", "{0.__class__}", "1 2"]
ODD = {"thing": THING, "type": Thing, "func": len, "bytes": b"\xff{0}",
       "rec": Rec(a="{1}"), "list_of": list_of(int)([1])}


@st.composite
def odd_values(draw, numbers=False):
    """a literal; ("odd", name) stands for an object"""
    return draw(st.one_of(
        st.sampled_from(TEXTS), st.sampled_from(TEXTS),
        st.text(max_size=6), st.sampled_from([("odd", k) for k in ODD]),
        st.none(), st.just([1, "{0}"]), st.just({"{k}": "%d"}),
        st.just((1, "{")),
        *([st.integers(), st.floats(allow_nan=False)] if numbers else [])))


def mat(v):
    return ODD[v[1]] if isinstance(v, tuple) and v[:1] == ("odd",) else v


class Custom(Exception):
    pass


class Curious(exc.StringFormatException):
    message = "seen {what!r} by {who}"


def make_error(kind, text):
    return {"value": ValueError, "type": TypeError, "key": KeyError,
            "attr": AttributeError, "custom": Custom, "stop": StopIteration,
            "index": IndexError,
            "curious": lambda x: Curious(what=x, who="{me}"),
            "none": lambda x: ValueError()}[kind](text)


ERRORS = ["value", "type", "key", "attr", "custom", "stop", "index",
          "curious", "none"]


# -- what every error must be able to do --------------------------------------------
def anatomy(r, classes, what, fields=None, mentions=()):
    """r is an error of the given classes which has the given fields and whose
    text mentions the given texts; returns the error"""
    check(isinstance(r, Raised), "%s: no error, but %s", what, short(r))
    e = r.exc
    for cls in classes:
        check(isinstance(e, cls), "%s: %r is not a %s", what, r,
              cls.__name__)
    check(isinstance(e, exc.NormalizeError) and
          isinstance(e, exc.StringFormatException),
          "%s: %r is not a NormalizeError", what, r)
    text = must_not_raise(lambda: str(e), "text of the error of %s" % what)
    check(isinstance(text, str) and text and "uncustomized" not in text,
          "%s: text is %s", what, short(text))
    rep = must_not_raise(lambda: repr(e), "repr of the error of %s" % what)
    check(type(e).__name__ + "(" in rep, "%s: repr is %s", what, rep)
    for name, want in (fields or {}).items():
        got = must_not_raise(lambda: getattr(e, name),
                             "%s: reading .%s of %s" % (
                                 what, name, type(e).__name__))
        check(got is want or (type(got) is type(want) and got == want),
              "%s: .%s of %s is %s, expected %s", what, name, text,
              short(got), short(want))
        check(name in rep, "%s: .%s is not in %s", what, name, rep)
    for m in mentions:
        check(m in text, "%s: %s is not in its text %s", what, short(m),
              short(text))
    check(isinstance(attempt(lambda: e.no_such_thing), Raised) and
          not hasattr(e, "no_such_thing") and
          getattr(e, "no_such_thing", 7) == 7,
          "%s: it has an attribute .no_such_thing", what)
    lines = must_not_raise(lambda: "".join(
        traceback.format_exception(type(e), e, e.__traceback__)),
        "traceback of %s" % what)
    check(type(e).__name__ in lines, "%s: traceback is %s", what, lines)
    check(str(e) == text and repr(e) == rep, "%s: text changes", what)
    return e


def said(e):
    """the text of an error, as a message quotes it"""
    return "%s" % e


# -- attributes -----------------------------------------------------------------------
HOW = ["kw", "map", "set", "json"]
NAMES = st.sampled_from(["a", "value", "prop", "passed", "exc", "message",
                         "_x", "x1", "args", "kwargs", "formatted"])


@st.composite
def attr_cases(draw):
    kind = draw(st.sampled_from([
        "coerce raises", "coerce raises", "coerced badly", "constructor",
        "check", "check raises", "required", "ro", "unknown", "ambiguous",
        "subtype", "subtype none", "subtype union", "unset", "default"]))
    return (kind, draw(NAMES), draw(odd_values()), draw(odd_values(True)),
            draw(st.sampled_from(ERRORS)), draw(st.sampled_from(TEXTS)),
            draw(st.sampled_from(HOW)), draw(st.booleans()),
            draw(st.sampled_from(["Rec", "R_2", "Some{Name"])))


def raiser(err):
    def fn(x):
        raise err
    return fn


class Never(object):
    """nothing is of this type"""
    def __init__(self, x):
        raise Custom("{never} %s")


def attributes(case, ctx):
    kind, name, v, v2, ek, text, how, union, tname = case
    v, v2 = mat(v), mat(v2)
    err = make_error(ek, text)
    kw, fields, mention = {}, {"passed": v}, [repr(v)]
    classes = [exc.CoercionError, TypeError]
    isa = (Never, Custom) if union else Never
    if kind == "coerce raises":
        kw = dict(isa=isa, coerce=raiser(err))
        classes.append(exc.CoerceError)
        fields["exc"] = err
        mention += [said(err), "Never"]
    elif kind == "constructor":
        kw = dict(isa=Never)
        classes.append(exc.CoerceError)
        mention += ["{never} %s", "Never"]
    elif kind == "coerced badly":
        kw = dict(isa=isa, coerce=lambda x: v2)
        if v2 is None and how != "set":
            return          # leaves it out
        classes.append(exc.ValueCoercionError)
        fields["coerced"] = v2
        mention.append(repr(v2))
    elif kind in ("subtype", "subtype union"):
        even = subtype("Even{", of=int, where=lambda x: x % 2 == 0,
                       coerce=lambda x: 3)
        r = attempt(lambda: even(v))
        e = anatomy(r, [exc.SubtypeCoerceError, exc.CoercionError, TypeError],
                    "Even(%s)" % short(v), {
                        "passed": v, "coerced": 3, "subtype": even,
                        "subtype_of": int}, [repr(v), "3", "Even{"])
        kw = dict(isa=even if kind == "subtype" else (even, Custom))
        if kind == "subtype":
            classes.append(exc.ValueCoercionError)
            fields["coerced"] = 3
        else:
            kw["coerce"] = even
            classes.append(exc.ValueCoercionError)
    elif kind == "subtype none":
        short_ = subtype("Short", of=str, where=lambda x: len(x) < 0)
        r = attempt(lambda: short_(v))
        anatomy(r, [exc.SubtypeNoCoerceFunc, exc.CoercionError, TypeError],
                "Short(%s)" % short(v),
                {"passed": v, "subtype": short_, "subtype_of": str},
                [repr(v), "Short", "str"])
        kw = dict(isa=short_)
        classes.append(exc.CoerceError)
        mention.append("Short")
    elif kind == "check":
        kw = dict(check=lambda x: v2 == 0 and False)
        classes = [exc.ValueCheckError, exc.AttributeValueError, ValueError]
    elif kind == "check raises":
        kw = dict(check=raiser(err))
    elif kind == "required":
        kw = dict(required=True)
        if union:
            kw["isa"] = str
        classes = [exc.PropertyRequired, exc.AttributeValueError, ValueError]
        fields, mention = {}, []
    elif kind == "default":
        kw = dict(isa=Never, default=lambda: v)
        classes.append(exc.CoerceError)
        mention += ["{never} %s", "Never"]
    elif kind == "ro":
        kw = dict(traits=["ro"])
        classes = [exc.ReadOnlyAttributeError, AttributeError]
        fields, mention = {}, []
    jname = text if how == "json" else None
    if how == "json":
        kw["json_name"] = jname
    base = JsonRecord if how == "json" else Record
    prop = Property(**kw)
    cls = type(base)(tname, (base,), {name: prop, "other": Property()})
    full = "%s.%s" % (tname, name)
    what = "%s of %s=%s (%s)" % (kind, full, short(v), how)

    def give(x):
        if how == "kw":
            return cls(**{name: x})
        if how == "map":
            return cls({name: x})
        if how == "json":
            return cls({jname: x})
        rec = cls.__new__(cls)
        rec.__dict__["other"] = 1
        setattr(rec, name, x)
        return rec
    if kind == "unknown":
        bad = name + "_"
        r = attempt(lambda: cls(**{bad: v}) if how != "map" else
                    cls({bad: v}))
        if how == "json":
            r = attempt(lambda: cls(other=1, **{bad: v}))
        anatomy(r, [exc.PropertyNotKnown, exc.UsageException], what,
                {"propname": bad, "typename": tname}, [bad, tname])
    elif kind == "ambiguous":
        if how == "json":
            return
        r = attempt(lambda: cls({name: v}, other=v2))
        anatomy(r, [exc.AmbiguousConstruction, exc.UsageException], what)
    elif kind == "unset":
        if kw.get("default"):
            return
        r = attempt(lambda: getattr(cls(), name))
        check(isinstance(r, Raised) and isinstance(r.exc, AttributeError) and
              name in str(r.exc), "%s: %s", what, short(r))
    elif kind == "check raises":
        r = attempt(lambda: give(v))
        check(isinstance(r, Raised) and r.exc is err, "%s: the user's own %r "
              "became %s", what, err, short(r))
    elif kind == "required":
        how_ = {"kw": lambda: cls(), "map": lambda: cls({"other": 1}),
                "json": lambda: cls({}), "set": lambda: give(None)}[how]
        if how == "set" and union:
            return                  # None is not a str: another error
        r = attempt(how_)
        anatomy(r, classes, what, {"prop": prop}, [full])
    elif kind == "default":
        r = attempt(lambda: cls())
        anatomy(r, classes, what, dict(fields, prop=prop), mention + [full])
    elif kind == "ro":
        rec = cls(**{name: v2})
        for r in (attempt(setattr, rec, name, v), attempt(delattr, rec, name)):
            anatomy(r, classes, what, {"attrname": full}, [full])
        check(getattr(rec, name) is v2, "%s: changed", what)
    else:
        r = attempt(lambda: give(v))
        e = anatomy(r, classes, what, dict(fields, prop=prop),
                    mention + [full])
        if kind == "constructor":
            check(isinstance(e.exc, Custom), "%s: .exc is %r", what, e.exc)
    ctx.hit("passed" in fields)
    ctx.event(kind)


# -- collections -----------------------------------------------------------------------
class Num(Record):
    n = Property(isa=int, required=True)


class NumList(ListCollection):
    itemtype = Num


class NumDict(DictCollection):
    itemtype = Num


class Unions(ListCollection):
    itemtype = (int, Num)
    coerceitem = int


class UnionDict(DictCollection):
    itemtype = (int, Num)


class Scripted(ListCollection):
    itemtype = Never
    script = None

    @classmethod
    def coerceitem(cls, x):
        return cls.script(x)


LISTS = {"ints": list_of(int), "recs": NumList, "union": Unions,
         "scripted": Scripted}
DICTS = {"ints": dict_of(int), "recs": NumDict, "union": UnionDict}


@st.composite
def coll_cases(draw):
    kind = draw(st.sampled_from("ld"))
    ctype = draw(st.sampled_from(sorted(LISTS if kind == "l" else DICTS)))
    op = draw(st.sampled_from(
        ["new", "append", "insert", "set", "slice", "extend", "iadd", "prop",
         "values"] if kind == "l" else
        ["new", "set", "update", "kwupdate", "prop",
         "values"]))
    return (kind, ctype, op, draw(odd_values()), draw(st.integers(0, 3)),
            draw(st.sampled_from(ERRORS)), draw(st.sampled_from(TEXTS)))


def collections(case, ctx):
    kind, ctype, op, v, good, ek, text = case
    v = mat(v)
    cls = (LISTS if kind == "l" else DICTS)[ctype]
    err = make_error(ek, text)
    item = Num(n=3) if ctype == "recs" else 3
    fields = {"passed": v, "colltype": cls, "itemtype": cls.itemtype}
    if ctype == "scripted":
        Scripted.script = staticmethod(raiser(err))
        item = Never.__new__(Never)
        fields["exc"] = err
    if ctype in ("ints", "union") and not isinstance(
            attempt(int, v), Raised):
        v = fields["passed"] = "{n}"
    if ctype == "recs" and isinstance(v, dict):
        v = ["{k}"]
        fields["passed"] = v
    start = [item] * good if kind == "l" else {
        "k%d" % i: item for i in range(good)}
    bad = start + [v] if kind == "l" else dict(start, bad=v)
    c = cls(start)
    what = "%s of %s in %s" % (op, short(v), cls.__name__)

    class Holder(Record):
        c = (ListProperty if kind == "l" else DictProperty)(
            of=cls.itemtype, coll=cls) if not isinstance(
                cls.itemtype, tuple) else Property(isa=cls)
    wrapped = None
    if op == "new":
        r = attempt(lambda: cls(bad))
    elif op == "values":
        r = attempt(lambda: cls(values=bad))
    elif op == "prop":
        r = attempt(lambda: Holder(c=bad))
        wrapped = True
    elif op == "append":
        r = attempt(lambda: c.append(v))
    elif op == "insert":
        r = attempt(lambda: c.insert(0, v))
    elif op == "extend":
        r = attempt(lambda: c.extend([v]))
    elif op == "iadd":
        r = attempt(lambda: operator.iadd(c, [v]))
    elif op == "slice":
        r = attempt(lambda: c.__setitem__(slice(0, 1), [v]))
    elif op == "set" and kind == "l":
        if not good:
            return
        r = attempt(lambda: c.__setitem__(0, v))
    elif op == "set":
        r = attempt(lambda: c.__setitem__("k", v))
    elif op == "update":
        r = attempt(lambda: c.update({"k": v}))
    elif op == "kwupdate":
        r = attempt(lambda: c.update(k=v))
    else:
        raise AssertionError(op)
    names = ["int", "Num"] if ctype == "union" else [cls.itemtype.__name__]
    if wrapped:
        e = anatomy(r, [exc.CoerceError, TypeError], what, {
            "prop": Holder.c, "passed": bad}, [repr(v), "Holder.c"])
        r = Raised(e.exc)
        fields["colltype"] = Holder.c.valuetype
    e = anatomy(r, [exc.CollectionItemCoerceError, exc.CoercionError,
                    TypeError], what, fields,
                [repr(v), cls.__name__ if not wrapped else ""] + names)
    check(said(e.exc) in str(e), "%s: %r is not in %s", what, said(e.exc),
          str(e))
    ctx.hit()
    ctx.event("%s %s" % (op, ctype))


# -- containers of the wrong kind ------------------------------------------------------
@st.composite
def wrong_cases(draw):
    return (draw(st.sampled_from(
        ["list", "dict", "listprop", "dictprop", "jsonlist", "jsondict",
         "jsonrecord", "cast", "castrec", "castcoll", "unpack", "grok"])),
        draw(st.one_of(st.integers(1, 99), st.floats(1, 2),
                       st.just(("odd", "thing")), st.just(("odd", "func")),
                       st.sampled_from([t for t in TEXTS if t]))))


class JNum(JsonRecord):
    n = JsonProperty(isa=int, json_name="N{0}")


class Tree(JsonRecord):
    kids = JsonListProperty(of=JNum, json_name="%s kids")
    by = JsonDictProperty(of=JNum)
    one = Property(isa=JNum, json_name="{one}")
    plain = ListProperty(of=int)


class Copy(VisitorPattern):
    @classmethod
    def apply(cls, value, prop, visitor):
        return value


def wrong(case, ctx):
    how, v = case
    v = mat(v)
    what = "%s of %s" % (how, short(v))
    if how in ("list", "dict"):
        if how == "list" and isinstance(v, str):
            v = 17
        cls = list_of(int) if how == "list" else dict_of(int)
        r = attempt(lambda: cls(v))
        anatomy(r, [exc.CollectionCoerceError, exc.CoercionError, TypeError],
                what, {"passed": v, "colltype": cls},
                [repr(v), cls.__name__])
    elif how in ("listprop", "dictprop"):
        if how == "listprop" and isinstance(v, str):
            v = 17
        cls = type(Record)("H", (Record,), {
            "c": (ListProperty if how == "listprop" else DictProperty)(
                of=int)})
        for r in (attempt(lambda: cls(c=v)),
                  attempt(lambda: setattr(cls(), "c", v))):
            e = anatomy(r, [exc.CoerceError, TypeError], what,
                        {"prop": cls.c, "passed": v}, [repr(v), "H.c"])
            anatomy(Raised(e.exc), [exc.CollectionCoerceError], what,
                    {"passed": v}, [repr(v)])
    elif how in ("jsonlist", "jsondict"):
        name, jname = ("kids", "%s kids") if how == "jsonlist" else (
            "by", "by")
        if isinstance(v, str):
            v = 17              # (text is JSON text)
        r = attempt(lambda: Tree({jname: v}))
        e = anatomy(r, [exc.JsonConversionError, exc.CoercionError],
                    what, {}, [FieldSelector([jname]).path])
        same(list(e.error_fs), [jname], "path of the error of %s" % what)
        anatomy(Raised(e.sub_exception), [exc.JsonCollectionCoerceError],
                what, {"passed": v, "colltype": getattr(
                    Tree, name).valuetype}, [repr(v)])
    elif how == "jsonrecord":
        for cls in (Tree, JNum):
            if isinstance(v, str):
                v = 1.5
            r = attempt(lambda: cls(v))
            anatomy(r, [exc.JsonRecordCoerceError, exc.CoercionError,
                        TypeError], what, {"passed": v, "recordtype": cls},
                    [repr(v), cls.__name__])
    elif how == "cast":
        r = attempt(lambda: normalize.from_json(type(v), {"a": 1}))
        anatomy(r, [exc.CastTypeError, exc.UsageException, TypeError], what,
                {"badtype": type(v)}, [type(v).__name__])
    elif how == "castrec":
        for data, path in (({"one": v}, ["one"]), (
                {"kids": [{"n": 1}, v]}, ["kids", 1])):
            r = attempt(lambda: Copy.cast(Tree, data))
            e = anatomy(r, [exc.VisitorGrokRecordError, exc.VisitorException,
                            TypeError], what, {
                "val": repr(v), "record_type": JNum,
                "record_type_name": "JNum"}, [repr(v), "JNum"])
            located(e.field_selector, path, what, e)
    elif how == "castcoll":
        if isinstance(v, str):
            v = 12
        for data, path, t in (({"kids": v}, ["kids"], "kids"), (
                {"plain": v}, ["plain"], "plain"), (
                    {"by": v}, ["by"], "by")):
            r = attempt(lambda: Copy.cast(Tree, data))
            e = anatomy(r, [exc.VisitorGrokCollectionError,
                            exc.VisitorException, TypeError], what, {
                "val": repr(v), "record_type": getattr(Tree, t).valuetype},
                [repr(v)])
            located(e.field_selector, path, what, e)
    elif how == "unpack":
        visitor = Copy.Visitor(Copy.unpack, Copy.apply, Copy.aggregate,
                               Copy.reduce)
        r = attempt(lambda: Copy.unpack(v, list_of(int), visitor))
        anatomy(r, [exc.VisitorUnpackError, exc.VisitorException, TypeError],
                what, {"passed": v, "colltype": "list"}, [repr(v), "list"])
    else:
        r = attempt(lambda: Copy.cast(JNum, v))
        anatomy(r, [exc.VisitorGrokRecordError, TypeError], what,
                {"val": repr(v)}, [repr(v), "JNum"])
    ctx.hit()
    ctx.event(how)


def located(fs, path, what, e):
    check(isinstance(fs, FieldSelector) and FieldSelector(path).path in
          str(e), "%s: %r is not in %s", what, FieldSelector(path).path,
          str(e))


# -- paths, visitors, comparisons --------------------------------------------------------
@st.composite
def path_cases(draw):
    return (draw(st.lists(st.sampled_from(
        ["kids", "by", "plain"]), min_size=1, max_size=1)),
        draw(st.sampled_from(["get", "put", "post", "delete"])),
        draw(st.sampled_from(["nosuch", "a b", "{x}", "%s", "é", "", "'"])),
        draw(st.sampled_from([3, 99, -4])), draw(st.booleans()))


def paths(case, ctx):
    (attr,), op, name, idx, deep = case
    tree = Tree(kids=[JNum(n=1)], by={"k": JNum(n=2)}, plain=[1])
    more = ["n"] if deep else []
    args = [9 if deep or attr == "plain" else JNum(n=9)] if op in (
        "put", "post") else []
    # an index or key that is not there
    if attr == "by":
        path, key = ["by", name], name
    else:
        path, key = [attr, idx], idx
    if deep and attr == "plain":
        more = []
    sel = FieldSelector(path + more)
    what = "%s of %r" % (op, sel)
    makes = attr == "by" and (op == "post" or op == "put" and not more)
    if not makes:
        r = attempt(lambda: getattr(sel, op)(tree, *args))
        if op == "post" and more:
            check(isinstance(r, Raised) and isinstance(r.exc, ValueError) and
                  str(idx) in str(r.exc) if idx > 0 else
                  isinstance(r, Raised), "%s: %s", what, short(r))
        elif op in ("put", "post"):
            anatomy(r, [exc.FieldSelectorException], what, {}, [str(key)])
        else:
            anatomy(r, [exc.FieldSelectorKeyError, exc.FieldSelectorException,
                        KeyError, LookupError], what, {"key": key},
                    [str(key)])
    # an attribute that is not there
    for path in ([name, "x"], ["kids", 0, name, "x"], ["kids", 0, "zz{0}"]):
        if not (path[-1] == "x" or op == "get"):
            continue
        miss = path[-2] if path[-1] == "x" else path[-1]
        sel = FieldSelector(path)
        what = "%s of %r" % (op, sel)
        r = attempt(lambda: getattr(sel, op)(tree, *args))
        if op == "put":
            anatomy(r, [exc.FieldSelectorException], what, {}, [miss])
        else:
            anatomy(r, [exc.FieldSelectorAttributeError,
                        exc.FieldSelectorException, AttributeError], what,
                    {"name": miss}, [miss])
    check(tree == Tree(kids=[JNum(n=1)], by={"k": JNum(n=2)}, plain=[1]) or
          makes, "%s changed it: %s", what, short(tree))
    # post where nothing can be made
    if op == "post":
        cls = type(Record)("Untyped", (Record,), {"u": Property()})
        r = attempt(lambda: FieldSelector(["u", "x"]).post(cls(), 1))
        anatomy(r, [exc.FieldSelectorException], "post to %s" % name, {},
                ["default=", "isa="])
    ctx.hit(bool(args))
    ctx.event(op)


@st.composite
def other_cases(draw):
    return (draw(st.sampled_from(
        ["visit", "diffopts", "uniondiff", "identity", "keyhash", "untyped",
         "bare"])),
        draw(st.sampled_from(ERRORS)), draw(st.sampled_from(TEXTS)),
        draw(NAMES), draw(odd_values()))


def others(case, ctx):
    how, ek, text, name, v = case
    v = mat(v)
    what = "%s (%r)" % (how, case)
    err = make_error(ek, text)
    if how == "visit":
        def boom(self):
            raise err
        cls = type(Record)("V", (Record,), {
            name: Property(lazy=True, default=boom)})
        outer = type(Record)("Outer", (Record,), {"v": Property(isa=cls)})
        x = outer(v=cls())
        r = attempt(lambda: Copy.visit(x))
        if isinstance(err, (AttributeError, KeyError)):
            check(not isinstance(r, Raised), "%s: %s", what, short(r))
            return
        e = anatomy(r, [exc.VisitorPropError, exc.VisitorException], what, {
            "exception": err, "prop": cls.properties[name],
            "prop_name": name, "record_type_name": "V"},
            [name, "V", said(err)])
        ctx.hit()
    elif how == "diffopts":
        for fn in (diff_iter, normalize.diff.diff):
            r = attempt(lambda: list(fn(Rec(), Rec(), options=DiffOptions(),
                                        ignore_ws=False)))
            anatomy(r, [exc.DiffOptionsException, exc.UsageException], what)
    elif how == "uniondiff":
        r = attempt(lambda: list(diff_iter(Unions([1]), Unions([2]))))
        anatomy(r, [exc.CollectionItemTypeUnsupported,
                    exc.FeatureNotImplementedException], what)
    elif how == "identity":
        from normalize.identity import record_id
        bad = {"set": {1}, "list": [text], "dict": {text: 1}}[
            ["set", "list", "dict"][len(text) % 3]]
        r = attempt(lambda: record_id(bad))
        anatomy(r, [exc.IdentityCrisis, exc.FeatureNotImplementedException],
                what, {"val": bad, "val_repr": repr(bad), "val_type":
                       type(bad), "val_type_name": type(bad).__name__},
                [repr(bad), type(bad).__name__])
        ctx.hit()
    elif how == "untyped":
        # no item type
        for base in (ListCollection, DictCollection, JsonRecordList,
                     JsonRecordDict):
            for ns in ({}, {"itemtype": None}):
                if ns and not base.__name__.startswith("Json"):
                    continue
                cls = type(base)("Untyped", (base,), ns)
                items = {text: v} if issubclass(base, DictCollection) else [v]
                anatomy(attempt(lambda: cls(items)),
                        [exc.CollectionDefinitionError, exc.SubclassError],
                        what, {"property": "itemtype"}, ["itemtype"])
        ctx.hit()
    elif how == "bare":
        # a collection type without its methods
        cls = type(Collection)("Bare", (Collection,), {
            "itemtype": int, "colltype": list})
        for fn, method in ((lambda: cls([v]), "coll_to_tuples"),
                           (lambda: cls.coll_to_tuples([v]),
                            "coll_to_tuples"),
                           (lambda: cls.tuples_to_coll([(0, v)]),
                            "tuples_to_coll")):
            anatomy(attempt(fn), [exc.CollectionDefinitionError,
                                  exc.SubclassError], what, {
                "property": method, "coll": "Collection"},
                [method, "Collection"])
        ctx.hit()
    elif how == "keyhash":
        cls = type(Record)("Keyed", (Record,), {
            name: Property(isa=list)})
        x = cls(**{name: [text]})
        r = attempt(lambda: hash(x))
        e = anatomy(r, [exc.KeyHashError], what, {"typename": "Keyed"},
                    ["Keyed", name])
    ctx.event(how)


# -- declarations --------------------------------------------------------------------------
def lam(self, x, y):
    return 1


DECL = {
    "unknown": (lambda n: Property(**{n + "_": 1}),
                exc.PropertyArgumentNotKnown,
                lambda n: {"badkwarg": n + "_", "proptypename": "Property"},
                lambda n: [n + "_", "Property"], [TypeError]),
    "unknown2": (lambda n: SafeProperty(**{n + "_": 1}),
                 exc.PropertyArgumentNotKnown,
                 lambda n: {"badkwarg": n + "_"},
                 lambda n: [n + "_", "SafeProperty"], [TypeError]),
    "positional": (lambda n: Property(n), exc.PositionalArgumentsProhibited,
                   None, None, []),
    "default": (lambda n: Property(default=lam), exc.DefaultSignatureError,
                lambda n: {"func": lam, "nargs": 2, "module": __name__},
                lambda n: ["2", __name__], []),
    "default2": (lambda n: Property(default=str.join),
                 exc.DefaultSignatureError,
                 lambda n: {"func": str.join, "nargs": 2},
                 lambda n: ["2", "join"], []),
    "compare": (lambda n: Property(compare_as=lam),
                exc.CompareAsSignatureError,
                lambda n: {"func": lam, "nargs": 2, "module": __name__},
                lambda n: ["2", __name__], []),
    "compare2": (lambda n: Property(compare_as=str.join),
                 exc.CompareAsSignatureError,
                 lambda n: {"func": str.join, "nargs": 2},
                 lambda n: ["2", "join"], []),
    "none": (lambda n: Property(v1_none=[n]), exc.NoneMutable, None, None,
             []),
    "none2": (lambda n: Property(v1_none={}), exc.NoneMutable,
              lambda n: {"passed": {}}, lambda n: ["{}"], []),
    "coerce": (lambda n: Property(coerce=int), exc.CoerceWithoutType, None,
               None, []),
    "notlazy": (lambda n: Property(lazy=False), exc.LazyIsFalse, None, None,
                []),
    "listofwhat": (lambda n: ListProperty(), exc.ListOfWhat, None, None, []),
    "dictofwhat": (lambda n: DictProperty(), exc.DictOfWhat, None, None, []),
    "badlist": (lambda n: ListProperty(of=int, coll=DictCollection),
                exc.ListPropertyMustDeriveListCollection,
                lambda n: {"got": "DictCollection"},
                lambda n: ["DictCollection"], []),
    "baddict": (lambda n: DictProperty(of=int, coll=ListCollection),
                exc.DictPropertyMustDeriveDictCollection,
                lambda n: {"got": "ListCollection"},
                lambda n: ["ListCollection"], []),
    "trait": (lambda n: Property(traits=["no" + n]),
              exc.PropertyTypeMixinNotPossible, None,
              lambda n: ["no" + n], [exc.PropertyTypeMixNotFound]),
    "usertype": (lambda n: make_property_type(
        "Mine", isa=int, **{n + "_": 1})(),
        exc.PropertyArgumentNotKnown, lambda n: {"badkwarg": n + "_"},
        lambda n: [n + "_"], [TypeError]),
    "subtype": (lambda n: subtype("Sub", of=n, where=lambda x: True),
                exc.SubtypeOfWhat, lambda n: {"of": n}, lambda n: [n],
                [exc.TypeDefinitionError, TypeError]),
}


@st.composite
def decl_cases(draw):
    return (draw(st.sampled_from(sorted(DECL))), draw(NAMES))


def declarations(case, ctx):
    how, n = case
    fn, cls, fields, mention, more = DECL[how]
    r = attempt(fn, n)
    base = [exc.PropertyDefinitionError] if how not in (
        "trait", "subtype") else []
    anatomy(r, [cls] + more + base, "%s %r" % (how, n),
            fields(n) if fields else {}, mention(n) if mention else [])
    # ... and a declaration that is right still works
    check(isinstance(Property(isa=int), Property), "after %s", how)
    ctx.hit(bool(fields))
    ctx.event(how)


# -- user-made errors --------------------------------------------------------------------------
FIELD = st.sampled_from(["a", "b", "who", "x1"])
CONV = st.sampled_from(["", "", "!r", "!s", ":>6", "!r:<9"])


@st.composite
def templates(draw):
    parts = []
    auto = draw(st.booleans())
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from("tnp"))
        if k == "t":
            parts.append(("t", draw(st.sampled_from(
                TEXTS + ["plain ", ": "]))))
        elif k == "n":
            parts.append(("n", draw(FIELD), draw(CONV)))
        else:
            parts.append(("p", None if auto else draw(st.integers(0, 2)),
                          draw(CONV)))
    scal = st.one_of(
        st.sampled_from(TEXTS), st.integers(0, 9), st.text(max_size=4),
        st.sampled_from([(), (1,), ("a", 2), ((),), (None, "{0}"), [1, (2,)],
                         None, {"a": (1,)}, b"x", 1.5, True]))
    kw = {n: draw(scal) for n in ("a", "b", "who", "x1")
          if draw(st.integers(0, 3))}
    return (parts, draw(st.lists(scal, max_size=4)), kw,
            draw(st.sampled_from([0, 0, 1])))


def expected(parts, args, kw):
    """text, or ("missing", name) or ("short",)"""
    out, n = [], 0
    for p in parts:
        if p[0] == "t":
            out.append(p[1])
            continue
        if p[0] == "n":
            if p[1] not in kw:
                return ("missing", p[1])
            v = kw[p[1]]
        else:
            i = p[1]
            if i is None:
                i = n
                n += 1
            if i >= len(args):
                return ("short",)
            v = args[i]
        conv = p[2]
        spec = ""
        if ":" in conv:
            conv, spec = conv.split(":")
        if conv == "!r":
            v = repr(v)
        elif conv == "!s":
            v = str(v)
        if spec and not isinstance(v, (str, int)):
            return ("unformattable",)
        out.append(format(v, spec))
    return "".join(out)


def template(case, ctx):
    parts, args, kw, derive = case
    msg = "".join(
        p[1].replace("{", "{{").replace("}", "}}") if p[0] == "t" else
        "{%s%s}" % (p[1] if p[1] is not None else "", p[2]) for p in parts)
    cls = type("Mine", (exc.StringFormatException, LookupError), {
        "message": msg})
    if derive:
        cls = type("Derived", (cls,), {})
    want = expected(parts, args, kw)
    what = "%r with %r, %r" % (msg, args, kw)
    r = attempt(lambda: cls(*args, **kw))
    if want == ("unformattable",):
        ctx.event("unformattable")
        return
    if isinstance(want, tuple) and want[0] == "missing":
        anatomy(r, [exc.KeywordExceptionFormatError,
                    exc.StringFormatExceptionError], what,
                {"typename": cls.__name__, "missing": want[1]},
                [cls.__name__, want[1]] + [repr(k) for k in kw])
        ctx.event("missing")
        return
    if isinstance(want, tuple):
        anatomy(r, [exc.PositionalExceptionFormatError,
                    exc.StringFormatExceptionError], what,
                {"typename": cls.__name__}, [cls.__name__, repr(tuple(args))])
        ctx.event("short")
        return
    check(not isinstance(r, Raised), "%s: %r", what, r)
    check(str(r) == want, "%s: %r, expected %r", what, str(r), want)

    def throw():
        raise r
    e = attempt(throw)
    check(e.exc is r and isinstance(r, LookupError), "%s: %r", what, e)
    same(tuple(r.args), tuple(args), "positional arguments of %s" % what)
    for i, x in enumerate(args):
        same(r[i], x, "%s: [%d]" % (what, i))
    check(isinstance(attempt(lambda: r[len(args)]), Raised), "%s: [%d]",
          what, len(args))
    for n in ("a", "b", "who", "x1"):
        if n in kw:
            same(getattr(r, n), kw[n], "%s: .%s" % (what, n))
        else:
            check(not hasattr(r, n), "%s: has .%s", what, n)
    # repr() makes it again
    again = must_not_raise(lambda: eval(repr(r), {cls.__name__: cls}),
                           "evaluating %r" % r)
    check(type(again) is cls and str(again) == want and
          list(again.args) == args and again.kwargs == kw,
          "%s: repr %r gives %r", what, repr(r), again)
    ctx.hit(bool(args or kw) and len(parts) > 1)
    ctx.event("made")


PARTS = [
    Part("attributes", attr_cases, attributes, quick=3000),
    Part("collections", coll_cases, collections, quick=1500),
    Part("wrong", wrong_cases, wrong, quick=800),
    Part("paths", path_cases, paths, quick=600),
    Part("others", other_cases, others, quick=600),
    Part("declarations", decl_cases, declarations, quick=600),
    Part("template", templates, template, quick=1500),
]
