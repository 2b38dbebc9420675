"""C03: read-only slots never change; lazy slots are computed at most once."""
import functools

from hypothesis import strategies as st

from lib.decl import (
    Bad, CHECK, COERCE, TYPES, UNSET, V, equal_value, get, make_class, mat,
    model_accept, typed_values,
)
from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, short,
)
from normalize import (
    IntProperty, JsonRecord, Property, Record, StringProperty,
)
from normalize.coll import dict_of, list_of
from normalize.property import (
    LazyProperty, LazySafeProperty, ROLazyProperty, ROProperty,
)
from normalize.property.coll import ListProperty

PROPERTY = "C03"
RULE = (
    "A case is a slot declared read-only and/or lazy (through traits, "
    "arguments or the ready-made classes; with type, coerce, check, JSON "
    "options; default function or method scripted to return legal values, "
    "illegal values or raise) and a history of constructions (with and "
    "without explicit value), reads, assignments and deletions over two "
    "instances.  Non-trivial: the default function ran, or a read-only slot "
    "was assigned or deleted.")


class Boom(Exception):
    pass


class Maker(object):
    def __init__(self, step):
        self.step = step

    def __call__(self):
        return self.step(None)

    def bound(self):
        return self.step(None)

    def with_arg(self, x=None, *args, **kwargs):
        return self.step(None if x is None and not args and not kwargs
                         else "arguments")


def defaults_as_classmethod(step):
    class Holder(object):
        @classmethod
        def make(cls):
            return step(None)
    return Holder.make


def defaults_as_staticmethod(step):
    class Holder(object):
        @staticmethod
        def make():
            return step(None)
    return Holder().make


def noargs(args):
    return "arguments" if any(x is not None for x in args) else None


# other ways to write a function which needs no argument ...
FORMS = {
    "callable": Maker,
    "bound": lambda step: Maker(step).bound,
    "boundargs": lambda step: Maker(step).with_arg,
    "classmethod": defaults_as_classmethod,
    "staticmethod": defaults_as_staticmethod,
    "partial": lambda step: functools.partial(step, None),
    "optional": lambda step: lambda x=None: step(noargs([x])),
    "optself": lambda step: lambda self=None: step(noargs([self])),
    "star": lambda step: lambda *args, **kw: step(
        "arguments" if args or kw else None),
    "kwonly": lambda step: lambda *, self=None: step(noargs([self])),
    # ... or is told the record
    "selfmore": lambda step: lambda self, x=None: step(
        "arguments" if x is not None else self),
    "selfstar": lambda step: lambda self, *args, **kw: step(
        "arguments" if args or kw else self),
}
TOLD = ("method", "selfmore", "selfstar")


@st.composite
def cases(draw):
    d = {}
    t = draw(st.sampled_from([None, None, "int", "int", "str", "even",
                              "evenc", "nonesub", "list", "intstr"]))
    if t:
        d["isa"] = t
        if draw(st.integers(0, 3)) == 0:
            d["coerce"] = draw(st.sampled_from(sorted(COERCE)))
    if draw(st.integers(0, 3)) == 0:
        d["check"] = draw(st.sampled_from(["truthy", "short", "notneg"]))
    ro, lazy = draw(st.sampled_from(
        [(True, True), (True, True), (True, False), (False, True),
         (False, True), (False, False)]))
    d["ro"], d["lazy"] = ro, lazy
    d["form"] = draw(st.sampled_from(["traits", "class", "args"]))
    d["extra"] = draw(st.sampled_from(
        ["", "", "json", "extraneous", "noempty", "diffas"]))
    d["sub"] = draw(st.booleans())
    if lazy or draw(st.integers(0, 2)) > 0:
        script = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from(["v", "v", "v", "any", "raise", "attr"]))
            if k == "v":
                script.append(("value", draw(typed_values(t))))
            elif k == "any":
                script.append(("value", draw(V.any)))
            else:
                script.append((k, None))
        d["default"] = draw(st.sampled_from(
            ["fn", "fn", "method", "method"] + sorted(FORMS)))
        if not lazy and draw(st.booleans()):
            script = [x for x in script if x[0] == "value"] or [
                ("value", draw(typed_values(t)))]
        d["script"] = script
    ops = [("new", draw(st.sampled_from(["kw", "none", "none", "map"])),
            draw(typed_values(t)))]
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["read", "read", "read", "set", "del", "new",
                                  "setn", "has"]))
        if k == "new":
            ops.append(("new", draw(st.sampled_from(["kw", "none", "map"])),
                        draw(typed_values(t) | V.any)))
        elif k == "set":
            ops.append((k, draw(st.integers(0, 1)),
                        draw(typed_values(t) | V.any)))
        elif k == "setn":
            ops.append((k, draw(st.integers(0, 1)), draw(st.integers(0, 9))))
        else:
            ops.append((k, draw(st.integers(0, 1))))
    return (d, ops)


def build(d, script):
    """-> (class, calls) ; calls collects the argument of every default call"""
    calls = []

    def step(tag):
        i = len(calls)
        calls.append(tag)
        kind, v = script[min(i, len(script) - 1)]
        if kind == "raise":
            raise Boom("default %d" % i)
        if kind == "attr":
            raise AttributeError("from default")
        return mat(v)

    kw = {}
    if d.get("isa"):
        kw["isa"] = TYPES[d["isa"]]
    if d.get("coerce"):
        kw["coerce"] = COERCE[d["coerce"]]
    if d.get("check"):
        kw["check"] = CHECK[d["check"]]
    if "default" in d:
        if d["default"] == "fn":
            kw["default"] = lambda: step(None)
        elif d["default"] in FORMS:
            kw["default"] = FORMS[d["default"]](step)
        else:
            kw["default"] = lambda self: step(self)
    if d["extra"] == "json":
        kw["json_name"] = "J"
    elif d["extra"] == "extraneous":
        kw["extraneous"] = True
    elif d["extra"] == "noempty":
        kw["empty_attr"] = None
    elif d["extra"] == "diffas":
        kw["compare_as"] = lambda x: x
    cls = Property
    if d["form"] == "class":
        cls = {(True, True): ROLazyProperty, (True, False): ROProperty,
               (False, True): LazyProperty, (False, False): Property}[
                   d["ro"], d["lazy"]]
        if cls is LazyProperty and d.get("isa"):
            cls = LazySafeProperty
    else:
        if d["lazy"]:
            if d["form"] == "args":
                kw["lazy"] = True
            else:
                kw["traits"] = ["lazy"]
        if d["ro"]:
            kw["traits"] = kw.get("traits", []) + ["ro"]
    props = {"s": cls(**kw), "n": Property(isa=int, default=7)}
    rcls = make_class(props)
    if d["sub"]:
        rcls = make_class({"extra": Property()}, base=rcls)
    return rcls, calls


def checked(d):
    return bool(d.get("isa") or d.get("check"))


def run(case, ctx):
    d, ops = case
    script = d.get("script")
    cls, calls = build(d, script)
    live = []
    ncalls = 0          # the model's count

    def next_value():
        """model of one call of the default function"""
        kind, v = script[min(ncalls, len(script) - 1)]
        return kind, v

    for op in ops:
        what = "%r" % (op,)
        if op[0] == "new":
            give = op[1] != "none"
            v = mat(op[2])
            bad = None
            val = UNSET
            called = False
            if give:
                try:
                    val = model_accept(d, v, at_init=True)
                except Bad as e:
                    bad = e.kind
            elif "default" in d and not d["lazy"]:
                called = True
                kind, dv = next_value()
                if kind == "value":
                    try:
                        val = model_accept(d, mat(dv), at_init=True)
                    except Bad as e:
                        bad = e.kind
                else:
                    bad = kind
            r = attempt(lambda: cls(s=v) if op[1] == "kw" else
                        cls({"s": v}) if op[1] == "map" else cls())
            if called:
                ncalls += 1
                ctx.hit()
            check(len(calls) == ncalls, "%s: default called %d times in all, "
                  "expected %d", what, len(calls), ncalls)
            check(isinstance(r, Raised) == bool(bad), "%s: %s", what,
                  short(r))
            if bad:
                ctx.event("new-bad")
                continue
            if called:
                check(calls[-1] is (r if d["default"] in TOLD else None),
                      "%s: the default function was called with %s", what,
                      short(calls[-1]))
            if give and val is not UNSET and (
                    not d.get("isa") or isinstance(v, TYPES[d["isa"]])):
                check(r.s is v, "%s: explicit value lost: %s", what,
                      short(get(r, "s")))
            live.append([r, val, 7])
            del live[:-2]
            continue
        if not live:
            continue
        ent = live[op[1] % len(live)]
        rec, val, n = ent
        if op[0] == "setn":
            rec.n = op[2]
            ent[2] = op[2]
        elif op[0] in ("read", "has"):
            bad = None
            called = False
            if val is UNSET and d["lazy"]:
                called = True
                kind, dv = next_value()
                if kind == "value":
                    try:
                        val = model_accept(d, mat(dv))
                    except Bad as e:
                        bad = e.kind
                else:
                    bad = kind
            r = attempt(getattr, rec, "s")
            if called:
                ncalls += 1
                ctx.hit()
            check(len(calls) == ncalls, "%s: default called %d times in all, "
                  "expected %d", what, len(calls), ncalls)
            if called:
                check(calls[-1] is (rec if d["default"] in TOLD else None),
                      "%s: the default function was called with %s", what,
                      short(calls[-1]))
            if bad:
                ctx.event("lazy-failed-" + bad)
                want = {"coerce": TypeError, "check": ValueError,
                        "raise": Boom, "attr": AttributeError}[bad]
                check(isinstance(r, Raised) and isinstance(r.exc, want),
                      "%s: %s expected, got %s", what, want.__name__,
                      short(r))
            elif val is UNSET:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, AttributeError), "%s: reads %s while unset", what,
                    short(r))
            else:
                check(equal_value(r, val), "%s: reads %s, expected %s", what,
                      short(r), short(val))
                check(getattr(rec, "s") is r, "%s: a second read gives "
                      "another object", what)
                check(len(calls) == ncalls, "%s: default called again", what)
                if called:
                    ctx.event("lazy-ok")
                ent[1] = val
        elif op[0] == "set":
            v = mat(op[2])
            r = attempt(setattr, rec, "s", v)
            if d["ro"]:
                ctx.hit()
                ctx.event("ro-set")
                check(isinstance(r, Raised) and isinstance(
                    r.exc, AttributeError), "%s on read-only: %s", what,
                    short(r))
            else:
                try:
                    new = model_accept(d, v) if checked(d) else v
                    check(not isinstance(r, Raised), "%s: unexpectedly %r",
                          what, r)
                    ent[1] = new
                except Bad:
                    check(isinstance(r, Raised), "%s: accepted illegal value",
                          what)
        elif op[0] == "del":
            r = attempt(delattr, rec, "s")
            if d["ro"]:
                ctx.hit()
                ctx.event("ro-del")
                check(isinstance(r, Raised) and isinstance(
                    r.exc, AttributeError), "%s on read-only: %s", what,
                    short(r))
            elif val is UNSET:
                check(isinstance(r, Raised), "%s: deleting an unset slot "
                      "accepted", what)
            else:
                check(not isinstance(r, Raised), "%s: unexpectedly %r", what,
                      r)
                ent[1] = UNSET
        check(len(calls) == ncalls, "%s: default called %d times in all, "
              "expected %d", what, len(calls), ncalls)
        # nothing else changed; reading set slots does not recompute
        for rec, val, n in live:
            check(rec.n == n, "%s: n changed", what)
            if val is not UNSET:
                got = get(rec, "s")
                check(equal_value(got, val), "%s: an instance now reads %s, "
                      "expected %s", what, short(got), short(val))
            elif not d["lazy"]:
                check(get(rec, "s") is UNSET, "%s: an unset slot reads %s",
                      what, short(get(rec, "s")))
        check(len(calls) == ncalls, "%s: default called by a read of a set "
              "slot", what)


# -- every record gets its own default ---------------------------------------
@st.composite
def fresh_cases(draw):
    return (draw(st.sampled_from(["plain", "lazy", "ro", "rolazy", "typed",
                                  "json", "list", "listlazy", "listro"])),
            draw(st.booleans()),
            draw(st.lists(st.tuples(
                st.integers(0, 2), st.sampled_from(["append", "read"])),
                max_size=8)),
            draw(st.booleans()),
            draw(st.sampled_from(["[]", "[]", "[7]", "{}", "{'a': 1}", "set()",
                                  "bytearray()", "Box()"])))


class Box(list):
    """an object of a user's class"""
    __hash__ = object.__hash__

    def __bool__(self):
        return True


def put(box, x):
    if isinstance(box, dict):
        box[x] = x
    elif isinstance(box, set):
        box.add(x)
    else:
        box.append(x)


def run_fresh(case, ctx):
    kind, method, ops, late, what_ = case
    calls = []
    if kind.startswith("list"):
        what_ = "[]"
    if kind == "typed" and what_ not in ("[]", "[7]"):
        kind = "plain"

    def new():
        return eval(what_)

    def f():
        calls.append(1)
        return new()

    def m(self):
        calls.append(1)
        return new()
    kw = {"default": m if method else f}
    if kind in ("lazy", "rolazy", "listlazy"):
        kw["lazy"] = True
    if kind in ("ro", "rolazy", "listro"):
        kw["traits"] = ["ro"]
    if kind == "typed":
        kw["isa"] = list
    if kind == "json":
        kw["json_name"] = "X"
    is_list = kind.startswith("list")
    if is_list:
        kw["of"] = int
    cls = make_class({"s": (ListProperty if is_list else Property)(**kw)})
    recs = [cls() for _ in range(3)]
    model = [new(), new(), new()]
    lazy = "lazy" in kw
    check(len(calls) == (0 if lazy else 3),
          "default called %d times by 3 constructions (%s)", len(calls), kind)
    touched = set()
    for i, what in ops:
        if what == "append":
            put(recs[i].s, len(ops))
            put(model[i], len(ops))
            ctx.hit()
        touched.add(i)
        check(list(recs[i].s) == list(model[i]),
              "record %d: %r, expected %r", i, recs[i].s, model[i])
        if lazy:
            check(len(calls) == len(touched), "%d default calls for %d "
                  "records read", len(calls), len(touched))
    for i in range(3):
        check(list(recs[i].s) == list(model[i]), "record %d: %r, expected %r "
              "(values shared between records?)", i, recs[i].s,
              model[i])
    check(len({id(r.s) for r in recs}) == 3, "default value shared")
    if late:
        check(list(cls().s) == list(new()), "a later record does not start fresh")


# -- a type as default function: each record gets a new, empty one --------------
class Node(Record):
    items = Property(default=list)
    n = Property(isa=int, default=int)


class Doc(JsonRecord):
    node = Property(isa=Node, json_name="NODE")


NodeList = list_of(Node)
NodeDict = dict_of(Node)
KINDS = {
    "list": (list, lambda x: x.append(1)),
    "dict": (dict, lambda x: x.update(a=1)),
    "set": (set, lambda x: x.add(1)),
    "bytearray": (bytearray, lambda x: x.append(1)),
    "Box": (Box, lambda x: x.append(1)),
    "int": (int, None),
    "str": (str, None),
    "tuple": (tuple, None),
    "Node": (Node, lambda x: x.items.append(3)),
    "Doc": (Doc, lambda x: setattr(x, "node", Node())),
    "NodeList": (NodeList, lambda x: x.append(Node())),
    "NodeDict": (NodeDict, lambda x: x.update(a=Node())),
}


@st.composite
def type_cases(draw):
    return (draw(st.sampled_from(sorted(KINDS))),
            draw(st.sampled_from(["", "lazy", "ro", "rolazy", "json"])),
            draw(st.booleans()),
            draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
                ["read", "change", "explicit"])), max_size=6)))


def run_types(case, ctx):
    kind, how, typed, ops = case
    typ, change = KINDS[kind]
    kw = {"default": typ}
    if typed:
        kw["isa"] = typ
    if how.endswith("lazy"):
        kw["lazy"] = True
    if how.startswith("ro"):
        kw["traits"] = ["ro"]
    if how == "json":
        kw["json_name"] = "X"
    cls = make_class({"s": Property(**kw)})
    recs = [must_not_raise(lambda: cls(), "constructor") for _ in range(3)]
    model = [typ(), typ(), typ()]
    for i, what in ops:
        if what == "read" or what == "change" and not change:
            check(type(recs[i].s) is typ, "%r: reads %s", case,
                  short(recs[i].s))
        elif what == "change":
            change(recs[i].s)
            change(model[i])
            ctx.hit()
        else:
            mine = typ()
            recs[i] = cls(s=mine)
            model[i] = typ()
            check(recs[i].s is mine, "%r: explicit value lost", case)
        for k in range(3) if not how.endswith("lazy") else [i]:
            check(recs[k].s == model[k], "%r: record %d: %s, expected %s",
                  case, k, short(recs[k].s), short(model[k]))
    for k in range(3):
        got = must_not_raise(lambda: recs[k].s, "reading")
        check(type(got) is typ and got == model[k],
              "%r: record %d: %s, expected %s", case, k, short(got),
              short(model[k]))
        check(got is recs[k].s, "%r: another object when read again", case)
    if change:
        check(len({id(r.s) for r in recs}) == 3, "%r: default shared", case)


# -- ready-made typed read-only/lazy properties --------------------------------
@st.composite
def typed_cases(draw):
    return (draw(st.sampled_from(["int", "str"])),
            draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from([5, "7", "x", None, 2.5, ""])),
            draw(st.booleans()),
            draw(st.sampled_from([3, "8", "y", None])))


def run_typed(case, ctx):
    tname, ro, lazy, v, explicit, other = case
    d = {"isa": tname}
    calls = []

    def dflt():
        calls.append(1)
        return v
    kw = {"default": dflt}
    if lazy:
        kw["lazy"] = True
    if ro:
        kw["traits"] = ["ro"]
    cls = make_class({"s": (IntProperty if tname == "int" else
                            StringProperty)(**kw)})
    try:
        want = model_accept(d, v, at_init=not lazy or explicit)
    except Bad:
        want = Bad
    r = attempt(lambda: cls(s=v) if explicit else cls())
    if lazy or explicit:
        check(not calls, "default called by the constructor (%r)", case)
    if lazy and not explicit:
        check(not isinstance(r, Raised), "lazy: constructor: %r", r)
        rec = r
        r = attempt(lambda: rec.s)
        check(len(calls) == 1, "%r: default called %d times", case,
              len(calls))
    elif not isinstance(r, Raised):
        rec = r
        r = get(rec, "s")
    ctx.hit()
    if want is Bad:
        check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
              "%r: %s", case, short(r))
        return
    check(equal_value(r, want), "%r: reads %s", case, short(r))
    if ro:
        x = attempt(setattr, rec, "s", want)
        check(isinstance(x, Raised) and isinstance(x.exc, AttributeError),
              "%r: read-only slot was assigned", case)
        x = attempt(setattr, rec, "s", other)
        check(isinstance(x, Raised) and isinstance(x.exc, AttributeError),
              "%r: read-only slot was assigned", case)
        x = attempt(delattr, rec, "s")
        check(isinstance(x, Raised) and isinstance(x.exc, AttributeError),
              "%r: read-only slot was deleted", case)
        check(equal_value(rec.s, want), "%r: now %s", case, short(rec.s))
    else:
        x = attempt(setattr, rec, "s", other)
        try:
            new = model_accept(d, other)
            check(not isinstance(x, Raised), "%r: %r", case, x)
        except Bad:
            check(isinstance(x, Raised), "%r: accepted %r", case, other)
            new = want
        check(equal_value(rec.s, new), "%r: now %s", case, short(rec.s))


PARTS = [
    Part("history", cases, run, quick=4000, thorough=80000),
    Part("fresh", fresh_cases, run_fresh, quick=600, thorough=6000),
    Part("types", type_cases, run_types, quick=500, thorough=5000),
    Part("typed", typed_cases, run_typed, quick=300, thorough=1000),
]
