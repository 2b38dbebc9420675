"""Declares properties in a fresh process and probes what they do (run by
lib.zygote; nothing here is declared when the module is imported).

A declaration is {"cls": name, "kw": {argument: literal}}; cls "u0", "u1"...
is a property type made with make_property_type earlier in the case."""
import datetime
import decimal

from lib.harness import Raised, attempt, check, short

STOCK = {
    "property": ["Property", "SafeProperty", "LazyProperty", "ROProperty",
                 "ROLazyProperty", "LazySafeProperty", "V1Property",
                 "DiffasProperty"],
    "property.json": ["JsonProperty", "SafeJsonProperty", "JsonListProperty",
                      "JsonDictProperty"],
    "property.coll": ["ListProperty", "DictProperty", "CollectionProperty"],
    "property.types": ["IntProperty", "LongProperty", "IntegerProperty",
                       "NumberProperty", "StringProperty", "FloatProperty",
                       "UnicodeProperty", "DateProperty", "DatetimeProperty"],
}
WHERE = {n: m for m, ns in STOCK.items() for n in ns}

# what the stock classes imply
IMPLIED = {
    "Property": {}, "SafeProperty": {"safe": True},
    "LazyProperty": {"lazy": True}, "ROProperty": {"ro": True},
    "ROLazyProperty": {"ro": True, "lazy": True},
    "LazySafeProperty": {"lazy": True, "safe": True},
    "V1Property": {"v1": True, "safe": True},
    "DiffasProperty": {"diffas": True},
    "JsonProperty": {"json": True},
    "SafeJsonProperty": {"json": True, "safe": True},
    "JsonListProperty": {"json": True, "type": "list", "safe": True},
    "JsonDictProperty": {"json": True, "type": "dict", "safe": True},
    "ListProperty": {"type": "list", "safe": True},
    "DictProperty": {"type": "dict", "safe": True},
    "CollectionProperty": {"safe": True},
    "IntProperty": {"type": "int", "safe": True},
    "LongProperty": {"type": "int", "safe": True},
    "IntegerProperty": {"type": "integer", "safe": True},
    "NumberProperty": {"type": "number", "safe": True},
    "StringProperty": {"type": "str", "safe": True},
    "UnicodeProperty": {"type": "text", "safe": True},
    "FloatProperty": {"type": "float", "safe": True},
    "DateProperty": {"type": "date", "safe": True, "json": True},
    "DatetimeProperty": {"type": "datetime", "safe": True, "json": True},
}

D = datetime.date
T = datetime.datetime
GOOD = {        # three values each; two of them differ from a default's
    None: [5, "x", [1]],
    "int": [4, 5, 6], "integer": [4, 5, 6], "number": [4, 5.5, 6],
    "str": ["p", "q", "r"], "float": [0.5, 1.5, 2.5], "intstr": [4, "q", 6],
    "text": ["p", "q", "r"],
    "date": [D(2001, 2, 3), D(1999, 1, 1), D(2020, 2, 29)],
    "datetime": [T(2001, 2, 3, 4, 5, 6), T(1999, 1, 1), T(2020, 2, 29, 1)],
    "list": [[1, 2], [3], [4, 4]], "dict": [{"a": 1}, {"b": 2}, {"a": 3}],
    "even": [2, 4, 6],
}
BAD = {         # values that are neither of the type nor can be made one
    "int": "zz", "integer": "zz", "number": "zz", "float": "zz",
    "intstr": None, "text": 7, "date": 5, "datetime": 5, "list": ["zz"],
    "dict": {"a": "zz"}, "even": 3,
}
RAW = {         # (value that is coerced, result)
    "int": ("7", 7), "integer": ("7", 7), "number": ("7", 7),
    "str": (7, "7"), "float": ("2.5", 2.5),
    "date": ("2004-05-06", D(2004, 5, 6)),
    "datetime": ("2004-05-06", T(2004, 5, 6)),
    "list": (["8"], [8]), "dict": ({"a": "8"}, {"a": 8}),
}


def stock(name):
    import importlib
    return getattr(importlib.import_module("normalize." + WHERE[name]), name)


class Env(object):
    def __init__(self, case):
        self.calls = []     # names of the functions called
        self.colls = {}
        self.user = []
        self.info = []

    def isa(self, name):
        if name == "even":
            from normalize import subtype
            if not hasattr(self, "even"):
                self.even = subtype("even", of=int, where=lambda x: x % 2 == 0)
            return self.even
        return {"int": int, "str": str, "text": str, "float": float,
                "intstr": (int, str), "date": D, "datetime": T}[name]

    def cls(self, name):
        if name[0] == "u" and name[1:].isdigit():
            return self.user[int(name[1:])]
        return stock(name)

    def implied(self, name):
        """behaviours of a class, and the arguments it supplies"""
        if name[0] == "u" and name[1:].isdigit():
            return self.info[int(name[1:])]
        return dict(IMPLIED[name]), {}

    def kwargs(self, kw, typ, calls):
        """literal arguments -> real ones; functions count their calls"""
        out = {}
        good = GOOD[typ]

        def fn(name, f):
            def counted(*args):
                calls.append(name)
                return f(*args)
            return counted
        for k, v in kw.items():
            if k == "isa":
                v = self.isa(v)
            elif k in ("of", "list_of", "dict_of"):
                v = int
            elif k == "coll":
                from normalize.coll import DictCollection, ListCollection
                v = {"list": ListCollection, "dict": DictCollection}[v]
            elif k == "check":
                v = fn("check", lambda x: x != good[1])
            elif k == "coerce":
                first = good[0]

                def v(x):
                    calls.append("coerce")
                    if x == ("raw",):
                        return first
                    raise KeyError(x)
            elif k == "default":
                v = self.default(v, good, calls)
            elif k == "compare_as":
                def zero():
                    calls.append("compare_as")
                    return "same"

                def one(x):
                    return zero()

                def method(self):
                    return zero()

                def both(self, x):
                    return zero()
                v = {0: zero, 1: one, 2: method, 3: both}[v]
            elif k == "json_in":
                v = fn("json_in", lambda x: good[0])
            elif k == "json_out":
                v = fn("json_out", lambda x: ["out"])
            out[k] = v
        return out

    @staticmethod
    def default(v, good, calls):
        if v == "const":
            return good[0]
        if v == "fn":
            def default():
                calls.append("default")
                return good[0]
        elif v == "method":
            def default(self):
                calls.append("default")
                assert type(self).__name__ == "R"
                return good[0]
        else:
            return v        # a false one
        return default


def model(env, d):
    """the behaviours a declaration asks for"""
    m, more = env.implied(d["cls"])
    kw = dict(more)
    kw.update(d["kw"])
    m = dict(m, kw=kw)
    if kw.get("isa") and m.get("type") not in ("list", "dict"):
        m["type"] = kw["isa"]
    if "list_of" in kw or kw.get("coll") == "list":
        m["type"] = "list"
    if "dict_of" in kw or kw.get("coll") == "dict":
        m["type"] = "dict"
    for t in kw.get("traits", ()):
        m[t] = True
    if "lazy" in kw:
        m["lazy"] = True
    if "compare_as" in kw:
        m["diffas"] = True
    if set(kw) & {"json_name", "json_in", "json_out"}:
        m["json"] = True
    if "v1_none" in kw or kw.get("default", 1) in ("", 0, None, False) and \
            not isinstance(kw.get("default", 1), list):
        m["v1"] = m["safe"] = True
    if set(kw) & {"isa", "required", "check", "of", "coll", "list_of",
                  "dict_of"}:
        m["safe"] = True
    if m.get("ro"):
        m["safe"] = False
    m["falsy"] = kw.get("default", 1) in ("", 0, None, False)
    return m


def make_user(env, u):
    """a property type of the user's: {"base": [names], "kw": {...},
    "trait": name or None}"""
    from normalize.property import make_property_type
    base = [env.cls(b) for b in u["base"]]
    m, kw = {}, {}
    for b in reversed(u["base"]):
        bm, bkw = env.implied(b)
        m.update(bm)
        kw.update(bkw)
    kw.update(u["kw"])
    info = (m, kw)
    typ = model_of(env, info)["type"]
    args = env.kwargs(u["kw"], typ, env.calls)
    more = {"trait_name": u["trait"]} if u.get("trait") else {}
    cls = make_property_type(
        "User%d" % len(env.user),
        base_type=base[0] if len(base) == 1 else tuple(base), **dict(
            args, **more))
    env.user.append(cls)
    env.info.append(info)


def model_of(env, info):
    env.info.append(info)
    m = model(env, {"cls": "u%d" % (len(env.info) - 1), "kw": {}})
    env.info.pop()
    m.pop("kw")
    m.setdefault("type", None)
    return m


UNSET = type("Unset", (), {"__repr__": lambda self: "(unset)"})()


def read(rec, name):
    try:
        return getattr(rec, name)
    except AttributeError:
        return UNSET


def plain(m, x):
    if m["type"] == "list" and hasattr(x, "itertuples"):
        return [v for _, v in x.itertuples()]
    if m["type"] == "dict" and hasattr(x, "itertuples"):
        return dict(x.itertuples())
    return x


def eq(m, x, want):
    x = plain(m, x)
    if want is UNSET or x is UNSET:
        return x is want
    return x == want and (type(x) is type(want) or m["type"] is None)


def probe(env, d, prop, typ, calls, base, what):
    """prop is declared as in d; check that it behaves so"""
    import normalize
    import normalize.exc as exc
    from normalize import Property
    from normalize.diff import diff
    from normalize.record.json import JsonRecord, from_json, to_json
    m = model(env, d)
    m.setdefault("type", None)
    kw = m["kw"]
    good = GOOD[m["type"]]
    g0, g1, g2 = good
    ok = g2 if kw.get("check") else g1      # another acceptable one
    cls = type(normalize.Record)("R", (
        JsonRecord if base == "json" else normalize.Record,), {
            "p": prop, "other": Property(default=1), "__module__": __name__})
    check(isinstance(prop, Property) and prop.name == "p" and
          cls.properties["p"] is prop, "%s: not bound", what)

    # what it says about itself
    if m["type"] in ("list", "dict"):
        from normalize.coll import DictCollection, ListCollection
        want = ListCollection if m["type"] == "list" else DictCollection
        check(issubclass(prop.valuetype, want) and
              prop.valuetype.itemtype is int, "%s: its type is %r", what,
              prop.valuetype)
    elif kw.get("isa"):
        check(prop.valuetype == env.isa(kw["isa"]), "%s: its type is %r",
              what, prop.valuetype)
    check(bool(prop.required) is bool(kw.get("required")),
          "%s: required is %r", what, prop.required)
    check(bool(prop.extraneous) is bool(kw.get("extraneous")),
          "%s: extraneous is %r", what, prop.extraneous)
    if "doc" in kw:
        check(prop.__doc__ == kw["doc"], "%s: doc is %r", what, prop.__doc__)
    for trait in "ro", "lazy", "safe", "json", "v1", "diffas":
        if trait in m:
            check((trait in prop.traits) == bool(m[trait]),
                  "%s: traits are %r", what, prop.traits)

    # construction
    del calls[:]
    rec = attempt(lambda: cls(p=g0))
    check(not isinstance(rec, Raised), "%s: given %s: %r", what, short(g0),
          rec)
    check(eq(m, rec.p, g0), "%s: given %s, reads %s", what, short(g0),
          short(rec.p))
    check("default" not in calls, "%s: default computed though a value was "
          "given", what)
    check(("check" in calls) == bool(kw.get("check")), "%s: calls %r", what,
          calls)
    if m["type"] in BAD and not kw.get("coerce") or kw.get("coerce"):
        bad = BAD.get(m["type"], object())
        if kw.get("coerce"):
            bad = None
        r = attempt(lambda: cls(p=bad))
        check(isinstance(r, Raised) and isinstance(r.exc, exc.CoercionError),
              "%s: given %s: %s", what, short(bad), short(r))
    if kw.get("coerce"):
        r = attempt(lambda: cls(p=("raw",)))
        check(not isinstance(r, Raised) and eq(m, r.p, g0),
              "%s: given something to coerce: %s", what, short(r))
    elif m["type"] in RAW:
        raw, want = RAW[m["type"]]
        r = attempt(lambda: cls(p=raw))
        check(not isinstance(r, Raised) and eq(m, r.p, want),
              "%s: given %s: %s", what, short(raw), short(r))
    if kw.get("check"):
        r = attempt(lambda: cls(p=g1))
        check(isinstance(r, Raised) and isinstance(
            r.exc, exc.ValueCheckError), "%s: given %s: %s", what, short(g1),
            short(r))

    # nothing given
    del calls[:]
    has_default = "default" in kw and not m["falsy"]
    r = attempt(cls)
    if kw.get("required") and not has_default and not m.get("lazy"):
        check(isinstance(r, Raised) and isinstance(
            r.exc, exc.PropertyRequired), "%s: given nothing: %s", what,
            short(r))
    elif not kw.get("required"):
        check(not isinstance(r, Raised), "%s: given nothing: %r", what, r)
    if not isinstance(r, Raised):
        want = UNSET
        if has_default:
            want = g0
        elif m.get("v1"):
            want = kw["v1_none"] if "v1_none" in kw else \
                kw["default"] if m["falsy"] else None
        n = 1 if has_default and kw["default"] in ("fn", "method") else 0
        if n:
            check(calls.count("default") == (0 if m.get("lazy") else 1),
                  "%s: default called %d times at construction", what,
                  calls.count("default"))
        if not (m.get("lazy") and not has_default):
            for _ in 1, 2:
                x = read(r, "p")
                check(x is want or want is not UNSET and eq(m, x, want) or (
                    m.get("v1") and not has_default and x == want and
                    type(x) is type(want)),
                      "%s: not set, reads %s, expected %s", what, short(x),
                      short(want))
            check(calls.count("default") == n, "%s: default called %d times",
                  what, calls.count("default"))

    # assignment and deletion
    if m.get("ro"):
        for f in (lambda: setattr(rec, "p", ok), lambda: delattr(rec, "p")):
            r = attempt(f)
            check(isinstance(r, Raised) and isinstance(
                r.exc, exc.ReadOnlyAttributeError), "%s: changed: %s", what,
                short(r))
        check(eq(m, rec.p, g0), "%s: changed to %s", what, short(rec.p))
    else:
        rec.p = ok
        check(eq(m, rec.p, ok), "%s: set to %s, reads %s", what, short(ok),
              short(rec.p))
        if m.get("safe"):
            tries = []
            if kw.get("coerce"):
                tries.append(([], exc.CoercionError))
            elif m["type"] in BAD:
                tries.append((BAD[m["type"]], exc.CoercionError))
            if kw.get("check"):
                tries.append((g1, exc.ValueCheckError))
            if kw.get("required") and not m["type"] and not kw.get("coerce"):
                tries.append((None, exc.PropertyRequired))
            for bad, err in tries:
                if m.get("v1") and (bad is None or bad in (0, "", [])):
                    continue
                r = attempt(setattr, rec, "p", bad)
                check(isinstance(r, Raised) and isinstance(r.exc, err),
                      "%s: set to %s: %s", what, short(bad), short(r))
                check(eq(m, rec.p, ok), "%s: a rejected assignment changed "
                      "it to %s", what, short(rec.p))
            if m["type"] in RAW and not kw.get("coerce"):
                raw, want = RAW[m["type"]]
                rec.p = raw
                check(eq(m, rec.p, want), "%s: set to %s, reads %s", what,
                      short(raw), short(rec.p))
            if kw.get("required"):
                r = attempt(delattr, rec, "p")
                check(isinstance(r, Raised) and isinstance(
                    r.exc, exc.PropertyRequired), "%s: deleted: %s", what,
                    short(r))
            rec.p = ok
        if not kw.get("required"):
            del rec.p
            check("p" not in rec.__dict__, "%s: deleted, still there", what)

    # JSON
    if m.get("json"):
        name = kw.get("json_name", "p")
        rec = cls(p=g0)
        del calls[:]
        out = attempt(lambda: to_json(rec, True))
        check(not isinstance(out, Raised), "%s: to_json: %r", what, out)
        if name is None:
            check(set(out) == {"other"}, "%s: to_json gives %s", what, out)
        else:
            check(set(out) == {"other", name}, "%s: to_json gives %s", what,
                  out)
            want = ["out"] if kw.get("json_out") else g0.isoformat() if \
                m["type"] in ("date", "datetime") and (
                    "isa" not in d["kw"] and "json_out" not in kw and
                    not env.noiso(d)) else None
            if want is not None:
                check(out[name] == want, "%s: to_json gives %s", what, out)
            if kw.get("json_in") or not kw.get("json_out"):
                given = {"j": 1} if kw.get("json_in") else out[name]
                back = attempt(lambda: from_json(cls, {name: given}))
                if kw.get("json_in"):
                    check(not isinstance(back, Raised) and eq(
                        m, back.p, g0), "%s: from_json gives %s", what,
                        short(back))
                elif m["type"] not in ("date", "datetime", None, "intstr") \
                        and not kw.get("coerce"):
                    check(not isinstance(back, Raised) and eq(
                        m, back.p, g0), "%s: from_json gives %s", what,
                        short(back))

    # comparison
    a, b = cls(p=g0), cls(p=ok)
    check((a == b) == bool(kw.get("extraneous")), "%s: %s == %s is %s", what,
          short(a), short(b), a == b)
    del calls[:]
    got = diff(a, b, extraneous=True)
    if "compare_as" in kw:
        check("compare_as" in calls and not got,
              "%s: differences %s, calls %s", what, got, calls)
    else:
        check(len(got) > 0, "%s: no differences of %s, %s", what, short(a),
              short(b))
    got = diff(a, b)
    check(bool(got) == (not kw.get("extraneous") and "compare_as" not in kw),
          "%s: differences %s", what, got)

    # the attribute for unset values
    if not m.get("v1"):
        attr = kw.get("empty_attr", "p0")
        if attr is None:
            check(not hasattr(a, "p0"), "%s: has p0", what)
        else:
            check(eq(m, getattr(a, attr, None), g0), "%s: %s is %s", what,
                  attr, short(getattr(a, attr, None)))


def declare(env, d, calls):
    m = model(env, d)
    typ = m.get("type")
    return env.cls(d["cls"])(**env.kwargs(d["kw"], typ, calls)), typ


ILLEGAL = {
    "unknown": "PropertyArgumentNotKnown",
    "positional": "PositionalArgumentsProhibited",
    "notlazy": "LazyIsFalse", "coerce": "CoerceWithoutType",
    "mutable": "NoneMutable", "trait": "PropertyTypeMixinNotPossible",
    "listofwhat": "ListOfWhat", "dictofwhat": "DictOfWhat",
    "badlist": "ListPropertyMustDeriveListCollection",
    "baddict": "DictPropertyMustDeriveDictCollection",
    "default": "DefaultSignatureError", "compare": "CompareAsSignatureError",
    "nocoll": "CollRequiredError",
}


def illegal(env, d, how, what):
    import normalize.exc as exc
    from normalize.coll import DictCollection, ListCollection
    typ = model(env, d).get("type")
    kw = env.kwargs(d["kw"], typ, [])
    cls = env.cls(d["cls"])
    args = ()
    if how == "unknown":
        kw["no_such_argument"] = 1
    elif how == "positional":
        args = (int,)
    elif how == "notlazy":
        kw["lazy"] = False
    elif how == "coerce":
        cls, kw = env.cls("Property"), {
            k: v for k, v in kw.items() if k in (
                "check", "required", "extraneous", "json_name", "doc")}
        kw["coerce"] = int
    elif how == "mutable":
        cls, kw = env.cls("Property"), {
            k: v for k, v in kw.items() if k in (
                "isa", "check", "extraneous", "json_name", "doc")}
        kw["v1_none"] = []
    elif how == "trait":
        kw["traits"] = list(kw.get("traits", ())) + ["nosuchtrait"]
    elif how == "listofwhat":
        cls, kw = env.cls("ListProperty"), {}
    elif how == "dictofwhat":
        cls, kw = env.cls("JsonDictProperty"), {}
    elif how == "badlist":
        cls, kw = env.cls("ListProperty"), dict(of=int, coll=DictCollection)
    elif how == "baddict":
        cls, kw = env.cls("DictProperty"), dict(of=int, coll=ListCollection)
    elif how == "default":
        kw["default"] = lambda self, other: 1
    elif how == "compare":
        cls, kw = env.cls("Property"), {
            "compare_as": lambda self, one, two: 1}
    elif how == "nocoll":
        cls, kw = env.cls("CollectionProperty"), {"of": int}
    r = attempt(lambda: cls(*args, **kw))
    err = getattr(exc, ILLEGAL[how])
    check(isinstance(r, Raised) and isinstance(r.exc, err),
          "%s: %s expected, got %s", what, ILLEGAL[how], short(r))


def own_collection(env, c, what):
    """c: {"base": "list"/"dict", "name", "of": type name, "n": identity}"""
    import normalize
    import normalize.exc as exc
    from normalize.coll import DictCollection, ListCollection
    base = ListCollection if c["base"] == "list" else DictCollection
    coll = env.colls.get(c["n"])
    if coll is None:
        coll = type(base)(c["name"], (base,), {"mine": c["n"]})
        coll = env.colls.setdefault(c["n"], coll)
    of = env.isa(c["of"])
    prop = "ListProperty" if c["base"] == "list" else "DictProperty"
    r = attempt(lambda: stock(prop)(of=of, coll=coll))
    others = [o for o in env.colls.values() if o is not coll and
              o.__name__ == coll.__name__]
    if isinstance(r, Raised):
        check(isinstance(r.exc, exc.PropertyNotUnique) and others,
              "%s: %r", what, r)
        return
    check(issubclass(r.valuetype, coll) and r.valuetype.itemtype is of,
          "%s: its type is %r, bases %r", what, r.valuetype,
          r.valuetype.__mro__)
    cls = type(normalize.Record)("R", (normalize.Record,), {
        "p": r, "__module__": __name__})
    item = GOOD[c["of"]][0]
    value = [item] if c["base"] == "list" else {"k": item}
    got = cls(p=value).p
    check(got.mine == c["n"] and [x for _, x in got.itertuples()] == [item],
          "%s: given %s, reads %s", what, short(value), short(got))


def history(case):
    """case: {"steps": [("user", u) | ("coll", c) | ("decl", d, base) | ("illegal", d, how)
    | ("import", module)]}"""
    import importlib
    env = Env(case)
    env.noiso = lambda d: d["cls"][0] == "u"
    todo = []
    types = {}
    for n, step in enumerate(case["steps"]):
        what = "step %d, %r" % (n, step[1:])
        if step[0] == "import":
            importlib.import_module(step[1])
        elif step[0] == "user":
            try:
                make_user(env, step[1])
            except Exception as e:
                check(False, "%s: %s: %s", what, type(e).__name__, e)
        elif step[0] == "coll":
            own_collection(env, step[1], what)
        elif step[0] == "illegal":
            illegal(env, step[1], step[2], what)
        else:
            calls = env.calls
            r = attempt(declare, env, step[1], calls)
            check(not isinstance(r, Raised), "%s: %r", what, r)
            todo.append((step, r, calls, what))
    for step, (prop, typ), calls, what in todo:
        d, base = step[1], step[2]
        try:
            probe(env, d, prop, typ, calls, base, what)
        except AssertionError:
            raise
        except Exception as e:
            import traceback
            check(False, "%s: %s: %s %s", what, type(e).__name__, e,
                  traceback.format_exc()[-500:])
        again, _ = declare(env, d, [])
        check(type(again) is type(prop), "%s: declared again, it is a %r, "
              "not a %r", what, type(again), type(prop))
    return len(todo)
