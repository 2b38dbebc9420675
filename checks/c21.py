"""C21: unset attributes are safely navigable: v1 none values, empty
pseudo-attributes."""
import datetime
import itertools

from hypothesis import strategies as st

import normalize.exc as exc
from lib.decl import (
    Bad, ERRORS, UNSET, V, decls, equal_value, get, make_class, mat,
    model_accept, prop_kwargs, typed_values,
)
from lib.harness import Part, Raised, attempt, check, short
from normalize import JsonRecord, Property, Record, V1Property, to_json
from normalize.coll import DictCollection, ListCollection
from normalize.property.coll import DictProperty, ListProperty
from normalize.subtype import subtype

PROPERTY = "C21"
RULE = (
    "v1: a declaration (type, coerce, check, required, JSON options) with a "
    "none value given by V1Property, v1_none= or a false default, and a "
    "history of constructions, assignments (None, the none value, legal and "
    "illegal values), deletions and reads on two records.  navigate: record "
    "types with generated attributes (untyped, built-in, record, union, "
    "list, dict, types with own or inherited subscripting, calling and "
    "attribute hooks, python properties, methods) and paths of attribute, "
    "item, slice and call steps from their pseudo-attributes, legal or not, "
    "with attempts to store on the way, run twice.  Non-trivial: None or the "
    "none value was assigned / a path has three or more steps.")

NONES = [None, "", 0, False, (), 0.0, b""]
ODD_NONES = NONES + ["n/a", -1]


@st.composite
def v1_cases(draw):
    d = draw(decls(allow=("required", "check", "coerce", "flavour")))
    how = draw(st.sampled_from(["class", "class", "arg", "default"]))
    if how == "default":
        none = draw(st.sampled_from(NONES))
        if d.get("required") and draw(st.booleans()):
            del d["required"]
    else:
        none = draw(st.sampled_from(ODD_NONES))
    if d.get("flavour") in ("safeclass", "jsonout"):
        del d["flavour"]
    t = d.get("isa")
    val = st.one_of(
        typed_values(t), typed_values(t), V.any, st.none(), st.just(none))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["set", "set", "set", "none", "mynone",
                                  "del", "new", "new0"]))
        i = draw(st.integers(0, 1))
        if k in ("set", "new"):
            ops.append((k, i, draw(val)))
        elif k == "mynone":
            ops.append(("set", i, none))
        elif k == "none":
            ops.append(("set", i, None))
        else:
            ops.append((k, i))
    return {"decl": d, "how": how, "none": none, "plain": draw(
        st.integers(0, 2)) == 0 and how == "class", "ops": ops}


def v1(case, ctx):
    d, how = case["decl"], case["how"]
    none = None if case["plain"] else case["none"]
    kw = prop_kwargs(d)
    if how == "class":
        if not case["plain"]:
            kw["v1_none"] = none
        prop = V1Property(**kw)
    elif how == "arg":
        prop = Property(v1_none=none, **kw)
    else:
        prop = Property(default=none, **kw)
    cls = make_class({"p": prop, "other": Property(default=3)}, JsonRecord)
    required = bool(d.get("required"))
    recs, held = [None, None], [UNSET, UNSET]
    # a required attribute with a default always has a value
    filled = required and how == "default"

    def unset_value():
        return none

    def look(i, what):
        if recs[i] is None:
            return
        got = attempt(lambda: recs[i].p)
        check(not isinstance(got, Raised), "%s: reading: %r", what, got)
        want = unset_value() if held[i] is UNSET else held[i]
        check(equal_value(got, want), "%s: p reads %s, not %s", what,
              short(got), short(want))
        check(held[i] is UNSET or "p" in recs[i].__dict__,
              "%s: p isn't stored", what)
        check(held[i] is not UNSET or "p" not in recs[i].__dict__,
              "%s: p is stored: %s", what, short(recs[i].__dict__))
        check(recs[i].other == 3, "%s: other changed", what)
        p0 = get(recs[i], "p0")
        if how != "default" or d.get("flavour") == "noempty":
            check(p0 is UNSET, "%s: p0 is %s", what, short(p0))
        else:
            check(equal_value(p0, want), "%s: p0 is %s", what, short(p0))
        if d.get("flavour") != "jsonnone" and (
                held[i] is UNSET and how != "default"):
            out = attempt(lambda: to_json(recs[i], True))
            check(out == {"other": 3}, "%s: unset, marshals out as %s", what,
                  short(out))

    for n, op in enumerate(case["ops"]):
        i = op[1]
        what = "step %d %r" % (n, op)
        if op[0] == "new" or op[0] == "new0" or recs[i] is None:
            give = op[0] != "new0" and len(op) > 2
            try:
                if give:
                    want = model_accept(d, mat(op[2]), at_init=True)
                elif filled:
                    want = model_accept(d, none, at_init=True)
                else:
                    want = UNSET
                if want is UNSET and required:
                    raise Bad("required")
            except Bad as e:
                r = attempt(lambda: cls(p=mat(op[2])) if give else cls())
                check(isinstance(r, Raised) and isinstance(
                    r.exc, ERRORS[e.kind]), "%s: new record: %s", what,
                    short(r))
                continue
            r = attempt(lambda: cls(p=mat(op[2])) if give else cls())
            check(not isinstance(r, Raised), "%s: new record: %r", what, r)
            recs[i], held[i] = r, want
        elif op[0] == "set":
            x = mat(op[2])
            isnone = x is None or type(x) is type(none) and x == none
            ctx.hit(isnone)
            try:
                want = model_accept(d, mat(op[2]))
            except Bad as e:
                r = attempt(setattr, recs[i], "p", x)
                # equal to the none value, of another type (0 and False)
                almost = not isnone and x == none and not filled
                if e.kind == "coerce" and isnone and not filled and \
                        not required:
                    check(not isinstance(r, Raised), "%s: %r", what, r)
                    held[i] = UNSET
                    ctx.event("unset")
                elif almost and not isinstance(r, Raised):
                    held[i] = UNSET
                else:
                    check(isinstance(r, Raised), "%s: accepted", what)
                    check(isinstance(r.exc, ERRORS[e.kind]) or isinstance(
                        r.exc, exc.PropertyRequired), "%s: %r", what, r)
                    ctx.event("refused")
            else:
                r = attempt(setattr, recs[i], "p", x)
                check(not isinstance(r, Raised), "%s: %r", what, r)
                held[i] = want
        elif op[0] == "del" and held[i] is not UNSET:
            r = attempt(delattr, recs[i], "p")
            if required:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, exc.PropertyRequired), "%s: %s", what, short(r))
            else:
                check(not isinstance(r, Raised), "%s: %r", what, r)
                held[i] = UNSET
        look(0, what)
        look(1, what)


# -- pseudo-attributes ----------------------------------------------------------
class MagicAttr(object):
    def __getattr__(self, name):
        raise AttributeError(name)


class SubMagicAttr(MagicAttr):
    pass


class MagicItem(object):
    def __getitem__(self, k):
        return 1


class SubItem(MagicItem):
    pass


class MyList(list):
    pass


class MyStr(str):
    pass


class Callable(object):
    def __call__(self):
        return 1


class SubCallable(Callable):
    known = 5


class Bare(object):
    known = 7

    def method(self):
        pass


small = subtype("small", of=int, where=lambda x: x < 100)

BUILTIN = {
    "int": int, "str": str, "date": datetime.date, "float": float,
    "list": list, "dict": dict, "small": small, "magic attr": MagicAttr,
    "sub attr": SubMagicAttr, "magic item": MagicItem, "sub item": SubItem,
    "my list": MyList, "my str": MyStr, "callable": Callable,
    "sub call": SubCallable, "bare": Bare, "nonetype": type(None),
}
KNOWN = ["real", "upper", "year", "known", "method", "keys", "append",
         "isoformat"]
ANYATTR = {"magic attr", "sub attr"}
ITEMS = {"str", "list", "dict", "magic item", "sub item", "my list",
         "my str"}
CALLS = {"callable", "sub call"}
MAGIC = ["getattr", "getitem", "call"]
NAMES = ["a", "b", "cc", "d1", "f9"]
WRONG = ["zz", "a00", "b9", "d10", "known9"]


@st.composite
def specs(draw):
    """record types: later ones refer to (and derive from) earlier ones"""
    classes = []
    for i in range(draw(st.integers(1, 4))):
        c = {"attrs": {}, "magic": [], "extra": {}, "base": None}
        if i and draw(st.integers(0, 3)) == 0:
            c["base"] = draw(st.integers(0, i - 1))
        if draw(st.integers(0, 5)) == 0:
            c["magic"] = [draw(st.sampled_from(MAGIC))]
        for name in draw(st.lists(st.sampled_from(NAMES), min_size=1,
                                  max_size=4, unique=True)):
            c["attrs"][name] = draw(typespecs(i))
        if draw(st.integers(0, 3)) == 0:
            c["extra"]["x"] = draw(st.sampled_from(
                ["method", "property", "const"]))
        if draw(st.integers(0, 7)) == 0:
            c["attrs"]["a0"] = draw(typespecs(i))
        if c["base"] is None and draw(st.integers(0, 3)) == 0:
            c["noempty"] = [draw(st.sampled_from(NAMES))]
        classes.append(c)
    return classes


def typespecs(i):
    rec = st.tuples(st.just("rec"), st.integers(0, i - 1)) if i else \
        st.just(("builtin", "int"))
    b = st.tuples(st.just("builtin"), st.sampled_from(sorted(BUILTIN)))
    item = rec | rec | st.tuples(st.just("builtin"), st.sampled_from(
        ["int", "str", "date", "bare", "my list"]))
    coll = st.tuples(st.sampled_from(["list", "dict"]), item)
    return st.one_of(
        st.just(("none",)), b, rec, rec, coll, coll,
        st.tuples(st.just("union"), st.lists(
            rec | rec | b | coll, min_size=2, max_size=3, unique=True)))


def inherited(classes, i):
    """(attributes, extra, magic, hidden aux) of a class and its bases"""
    c = classes[i]
    attrs, extra, magic, noempty = {}, {}, set(), {}
    if c["base"] is not None:
        attrs, extra, magic, noempty = inherited(classes, c["base"])
        attrs, extra, magic, noempty = (
            dict(attrs), dict(extra), set(magic), dict(noempty))
    attrs.update(c["attrs"])
    extra.update(c["extra"])
    magic.update(c["magic"])
    for n in c["attrs"]:
        noempty[n] = n in c.get("noempty", ())
    return attrs, extra, magic, noempty


ANY = "any"


def tokens(spec):
    if spec[0] == "none":
        return ANY
    if spec[0] == "union":
        return frozenset(spec[1])
    return frozenset([spec])


def join(found):
    if any(f == ANY for f in found):
        return ANY
    return frozenset().union(*found)


class Refused(Exception):
    pass


def m_attr(classes, state, name):
    if state == ANY:
        return ANY
    found = []
    for t in state:
        if t[0] == "rec":
            attrs, extra, magic, noempty = inherited(classes, t[1])
            if name in attrs:
                found.append(tokens(attrs[name]))
            elif name[-1] == "0" and name[:-1] in attrs and not \
                    noempty[name[:-1]] and not name[:-1][-1].isdigit():
                found.append(tokens(attrs[name[:-1]]))
            elif name in extra or "getattr" in magic:
                found.append(ANY)
        elif t[0] == "builtin":
            if t[1] in ANYATTR or hasattr(BUILTIN[t[1]], name):
                found.append(ANY)
        elif name in ("itertuples",) or name in ("append", "extend") and \
                t[0] == "list" or name in ("keys", "items") and \
                t[0] == "dict":
            found.append(ANY)
    if not found:
        raise Refused(exc.NoSuchAttribute)
    return join(found)


def m_item(classes, state):
    if state == ANY:
        return ANY
    found = []
    for t in state:
        if t[0] == "rec":
            if "getitem" in inherited(classes, t[1])[2]:
                found.append(ANY)
        elif t[0] == "builtin":
            if t[1] in ITEMS:
                found.append(ANY)
        else:
            found.append(frozenset([t[1]]))
    if not found:
        raise Refused(exc.NotSubscriptable)
    return join(found)


def m_call(classes, state):
    if state == ANY or any(
            "call" in inherited(classes, t[1])[2] if t[0] == "rec" else
            t[0] == "builtin" and t[1] in CALLS for t in state):
        return ANY
    raise Refused(exc.NotCallable)


def m_step(classes, state, step):
    if step[0] == "attr":
        return m_attr(classes, state, step[1])
    if step[0] == "item":
        return m_item(classes, state)
    if step[0] == "slice":
        m_item(classes, state)
        return state
    return m_call(classes, state)


@st.composite
def nav_cases(draw):
    classes = draw(specs())
    root = draw(st.integers(0, len(classes) - 1))
    attrs, _, _, noempty = inherited(classes, root)
    starts = [n for n in sorted(attrs) if not n[-1].isdigit() and
              not noempty[n] and n + "0" not in attrs]
    paths = []
    for _ in range(draw(st.integers(1, 3))):
        if not starts:
            break
        name = draw(st.sampled_from(starts))
        state = tokens(attrs[name])
        steps = []
        for _ in range(draw(st.integers(0, 6))):
            step = draw(step_for(classes, state))
            steps.append(step)
            if step[0] in ("put", "iter"):
                continue
            try:
                state = m_step(classes, state, step)
            except Refused:
                break
        paths.append((name, steps))
    return {"classes": classes, "root": root, "paths": paths}


@st.composite
def step_for(draw, classes, state):
    how = draw(st.integers(0, 11))
    if how == 0:
        return draw(st.sampled_from([
            ("put", "attr"), ("put", "item"), ("iter", "iter"),
            ("iter", "in")]))
    if how > 2 and state != ANY:
        legal = []
        for t in sorted(state, key=repr):
            if t[0] == "rec":
                attrs, extra, magic, _ = inherited(classes, t[1])
                legal += [("attr", n) for n in sorted(attrs)]
                legal += [("attr", n + "0") for n in sorted(attrs)]
                legal += [("attr", n) for n in extra]
                legal += [{"getattr": ("attr", "whatever"),
                           "getitem": ("item", 0), "call": ("call",)}[x]
                          for x in sorted(magic)]
            elif t[0] == "builtin":
                legal += [("attr", n) for n in KNOWN
                          if hasattr(BUILTIN[t[1]], n)]
                if t[1] in ITEMS:
                    legal += [("item", 1), ("slice", 0, 2)]
                if t[1] in CALLS:
                    legal.append(("call",))
            else:
                legal += [("item", 0), ("item", "k"), ("item", -1),
                          ("slice", None, -1), ("item", 3)]
        if legal:
            return draw(st.sampled_from(legal))
    return draw(st.one_of(
        st.tuples(st.just("attr"), st.sampled_from(NAMES + WRONG + KNOWN)),
        st.tuples(st.just("attr"), st.sampled_from(NAMES).map(
            lambda n: n + "0")),
        st.tuples(st.just("item"), st.sampled_from([0, -1, 7, "k", None])),
        st.sampled_from([("slice", 0, 1), ("slice", None, None),
                         ("call",)])))


_n = itertools.count()


def build(classes):
    made = []

    def real(spec):
        if spec[0] == "rec":
            return made[spec[1]]
        if spec[0] == "builtin":
            return BUILTIN[spec[1]]
        base = ListCollection if spec[0] == "list" else DictCollection
        return type(base)("C%d" % next(_n), (base,), {
            "itemtype": real(spec[1])})

    for c in classes:
        ns = {"__module__": __name__}
        for name, spec in sorted(c["attrs"].items()):
            kw = {"empty_attr": None} if name in c.get("noempty", ()) else {}
            if spec[0] == "none":
                ns[name] = Property(**kw)
            elif spec[0] == "union":
                ns[name] = Property(isa=tuple(real(s) for s in spec[1]),
                                    coerce=lambda x: x, **kw)
            elif spec[0] in ("list", "dict") and spec[1][0] == "rec":
                prop = ListProperty if spec[0] == "list" else DictProperty
                ns[name] = prop(of=real(spec[1]), **kw)
            else:
                ns[name] = Property(isa=real(spec), **kw)
        for name, kind in c["extra"].items():
            ns[name] = {"method": lambda self: 1,
                        "property": property(lambda self: 1),
                        "const": 5}[kind]
        if "getattr" in c["magic"]:
            def __getattr__(self, name):
                raise AttributeError(name)
            ns["__getattr__"] = __getattr__
        if "getitem" in c["magic"]:
            ns["__getitem__"] = lambda self, k: 1
        if "call" in c["magic"]:
            ns["__call__"] = lambda self: 1
        base = Record if c["base"] is None else made[c["base"]]
        made.append(type(Record)("N%d" % next(_n), (base,), ns))
    return made


def do_step(x, step):
    if step[0] == "attr":
        return getattr(x, step[1])
    if step[0] == "item":
        return x[step[1]]
    if step[0] == "slice":
        return x[step[1]:step[2]]
    if step[0] == "call":
        return x()
    if step == ("put", "attr"):
        x.a = 1
    elif step == ("put", "item"):
        x[0] = 1
    elif step[1] == "iter":
        return list(itertools.islice(iter(x), 3))
    elif step[1] == "in":
        # finite: the search below ends
        return 5 in itertools.islice(iter(x), 3)


def navigate(case, ctx):
    classes = case["classes"]
    made = build(classes)
    rec = made[case["root"]]()
    attrs, _, _, noempty = inherited(classes, case["root"])
    for name in attrs:
        check(get(rec, name) is UNSET, "%s of a new record is set", name)
    for again in range(2):
        for name, steps in case["paths"]:
            x = attempt(getattr, rec, name + "0")
            check(not isinstance(x, Raised), "%s0: %r", name, x)
            state = tokens(attrs[name])
            falsy(x, name + "0")
            ctx.hit(len(steps) > 2)
            path = name + "0"
            for step in steps:
                path += repr(step)
                r = attempt(do_step, x, step)
                if step[0] == "put":
                    check(isinstance(r, Raised) and isinstance(
                        r.exc, exc.EmptyAttributeError) and isinstance(
                        r.exc, TypeError), "%s: %s", path, short(r))
                    continue
                if step[0] == "iter":
                    check(isinstance(r, Raised) and isinstance(
                        r.exc, TypeError) or not r,
                        "%s: something in it: %s", path, short(r))
                    continue
                try:
                    state = m_step(classes, state, step)
                except Refused as e:
                    check(isinstance(r, Raised) and isinstance(
                        r.exc, e.args[0]), "%s: %s expected, got %s", path,
                        e.args[0].__name__, short(r))
                    ctx.event("refused")
                    break
                check(not isinstance(r, Raised), "%s: %r", path, r)
                falsy(r, path)
                x = r
            check(rec.__dict__ == {}, "%s: stored %s", path,
                  short(rec.__dict__))
    # set attributes
    for name in sorted(attrs):
        rec = made[case["root"]]()
        rec.__dict__[name] = value = object()
        if not name[-1].isdigit() and not noempty[name] and \
                name + "0" not in attrs:
            check(getattr(rec, name + "0") is value, "%s0 of a set attribute",
                  name)
        elif name + "0" not in attrs and "getattr" not in inherited(
                classes, case["root"])[2]:
            check(get(rec, name + "0") is UNSET, "%s0 exists", name)
    # an attribute declared under the name of a pseudo-attribute
    if "a0" in attrs:
        rec = made[case["root"]]()
        check(get(rec, "a0") is UNSET and isinstance(
            type(rec).a0, Property) and type(rec).a0.name == "a0",
            "a0 isn't the declared attribute: %s", short(get(rec, "a0")))
        rec.__dict__["a"] = 7
        check(get(rec, "a0") is UNSET, "a0 isn't the declared attribute")


def falsy(x, path):
    check(not x and bool(x) is False, "%s is true: %s", path, short(x))
    check(isinstance(attempt(repr, x), str) and isinstance(
        attempt(str, x), str), "%s has no repr", path)


PARTS = [
    Part("v1", v1_cases, v1, quick=4000),
    Part("navigate", nav_cases, navigate, quick=2000),
]
