"""C27: collections with attributes of their own are records and containers
at once."""
import copy
import json
import pickle

from hypothesis import strategies as st

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, must_raise, same, short,
)
import lib.schema
from normalize import (
    FieldSelector, JsonProperty, JsonRecord, JsonRecordList, LazyProperty,
    MultiFieldSelector, Property, Record, ROProperty, from_json, to_json,
)
from normalize.coll import DictCollection, ListCollection
from normalize.diff import diff_iter
from normalize.exc import PropertyNotKnown
from normalize.record.json import JsonRecordDict
from normalize.visitor import VisitorPattern

PROPERTY = "C27"
RULE = (
    "A case is a list or dict collection type (plain or JSON-aware, perhaps "
    "in two steps of inheritance) of numbers, text or records, with up to "
    "five attributes of its own (defaults, checks, required, read-only, "
    "lazy, extraneous), and a history of constructions, operations on items, "
    "assignments, copies, conversions and comparisons, or two such values.  "
    "Non-trivial: it has items and attributes which are set.")

BASES = {"l": ListCollection, "jl": JsonRecordList, "d": DictCollection,
         "jd": JsonRecordDict}
ITEMS = ["int", "str", "rec", "jrec"]


def _declare(base, ns):
    return lib.schema._declare(base, dict(ns, __module__="lib.schema"))


# -- the attributes ----------------------------------------------------------
def positive(x):
    return x > 0


ATTRS = {
    # kind: (declaration, legal values, illegal values, default)
    "str": (lambda: Property(isa=str, coerce=_text), ["", "a", "b"],
            [3, None], None),
    "int": (lambda: JsonProperty(isa=int, json_name="INT"), [0, 1, 5],
            ["no", None], None),
    "any": (lambda: Property(), [None, 0, "a", [1], {"k": []}], [], None),
    "dflt": (lambda: Property(isa=int, default=7), [7, 8], ["no"], 7),
    "list": (lambda: Property(isa=list, default=lambda: [1]),
             [[], [1], [2, "a"]], [3], [1]),
    "count": (lambda: Property(isa=int, default=lambda self: len(self)),
              [0, 9], ["no"], "count"),
    "req": (lambda: Property(isa=int, required=True), [0, 3], ["no", None],
            None),
    "check": (lambda: Property(isa=int, check=positive), [1, 2], [0, -1],
              None),
    "extra": (lambda: Property(isa=str, coerce=_text, extraneous=True),
              ["", "x"], [4], None),
    "ro": (lambda: ROProperty(isa=int), [1, 2], ["no"], None),
    "lazy": (lambda: LazyProperty(isa=int, default=lambda self: len(self)),
             [5, 6], ["no"], None),
}


def _text(x):
    raise ValueError("no text: %r" % (x,))


class Item(Record):
    a = Property(isa=int)
    b = Property(isa=str, coerce=_text)


class JItem(JsonRecord):
    a = Property(isa=int)
    b = JsonProperty(isa=str, coerce=_text, json_name="B")


lib.schema.Item, lib.schema.JItem = Item, JItem
TYPES = {"int": int, "str": str, "rec": Item, "jrec": JItem}
_cache = {}


class Types(object):
    """the collection type of a description"""
    def __init__(self, spec):
        base, item, attrs, split = spec
        self.kind = base[-1]
        self.json = base[0] == "j"
        self.item = item
        self.attrs = dict(attrs)
        ns = {"itemtype": TYPES[item]}
        more = {}
        for i, (n, k) in enumerate(attrs):
            (ns if split is None or i < split else more)[n] = ATTRS[k][0]()
        self.cls = _declare(BASES[base], ns)
        if split is not None:
            self.cls = _declare(self.cls, more)
        # the same without attributes
        self.bare = _declare(BASES[base], {"itemtype": TYPES[item]})
        self.bare2 = _declare(BASES[base], {"itemtype": TYPES[item]})

    def mk(self, v):
        """an item"""
        return TYPES[self.item](**v) if self.item in ("rec", "jrec") else v

    def items(self, vs):
        if self.kind == "l":
            return [self.mk(v) for v in vs]
        return {k: self.mk(v) for k, v in vs.items()}

    def un(self, x):
        if self.item in ("rec", "jrec"):
            check(type(x) is TYPES[self.item], "item %s", short(x))
            return {n: getattr(x, n) for n in "ab" if hasattr(x, n)}
        check(type(x) is TYPES[self.item], "item %s", short(x))
        return x

    def contents(self, x):
        if self.kind == "l":
            out = [self.un(y) for y in x]
            same([self.un(x[i]) for i in range(len(x))], out, "items")
            return out
        out = {k: self.un(y) for k, y in x.items()}
        same({k: self.un(x[k]) for k in x.keys()}, out, "items")
        return out

    def default(self, n, count):
        """(is there one, its value)"""
        d = ATTRS[self.attrs[n]][3]
        if d == "count":
            d = count
        return d is not None, copy.deepcopy(d)

    def fresh(self, given, count):
        """attributes after construction with some given; None if refused"""
        out = {}
        for n, k in self.attrs.items():
            if n in given:
                if any(given[n] is x or given[n] == x and
                       type(given[n]) is type(x) for x in ATTRS[k][2]):
                    return None
                out[n] = given[n]
            else:
                has, d = self.default(n, count)
                if has:
                    out[n] = d
                elif k == "req":
                    return None
        return out

    def state(self, x):
        """(items, attributes set), without computing lazy attributes"""
        out = {}
        for n, k in self.attrs.items():
            if k == "lazy":
                if not type(x).properties[n].slot_is_empty(x) and \
                        n in x.__dict__:
                    out[n] = getattr(x, n)
            elif hasattr(x, n):
                out[n] = getattr(x, n)
        return self.contents(x), out

    def plain(self, x):
        """JSON data of the items alone"""
        def one(v):
            v = dict(v)
            if self.item == "jrec" and "b" in v:
                v["B"] = v.pop("b")
            return v
        if self.item in ("int", "str"):
            return copy.deepcopy(x)
        return [one(v) for v in x] if self.kind == "l" else {
            k: one(v) for k, v in x.items()}


def types(spec):
    key = repr(spec)
    if key not in _cache:
        _cache[key] = Types(spec)
    return _cache[key]


# -- strategies --------------------------------------------------------------
NAMES = ["more", "total", "prev", "_page", "Count"]
KEYS = st.sampled_from(["a", "b", "c", "more", ""])


@st.composite
def specs(draw, kinds=tuple(sorted(ATTRS)), bases=("l", "jl", "d", "jd")):
    n = draw(st.integers(1, 5))
    attrs = [(NAMES[i], draw(st.sampled_from(kinds))) for i in range(n)]
    return (draw(st.sampled_from(bases)), draw(st.sampled_from(ITEMS)),
            attrs, draw(st.sampled_from([None, None, 0, 1, n])))


def item_values(item):
    if item == "int":
        return st.integers(0, 3)
    if item == "str":
        return st.sampled_from(["", "a", "b"])
    return st.fixed_dictionaries({}, optional={
        "a": st.integers(0, 3), "b": st.sampled_from(["", "q"])})


def contents_of(spec, max_size=4):
    v = item_values(spec[1])
    return st.lists(v, max_size=max_size) if spec[0][-1] == "l" else \
        st.dictionaries(KEYS, v, max_size=max_size)


def attr_values(draw, spec, p=0.6, bad=0):
    out = {}
    for n, k in spec[2]:
        if k == "req" and draw(st.integers(0, 9)) or \
                draw(st.floats(0, 1)) < p:
            _d, good, ill, _x = ATTRS[k]
            out[n] = copy.deepcopy(draw(st.sampled_from(
                ill if ill and bad and draw(st.integers(0, 9)) < bad else
                good)))
    return out


LIST_OPS = ["append", "extend", "insert", "pop", "set", "del", "slice",
            "reverse", "cut"]
DICT_OPS = ["set", "set", "del", "pop", "clear", "update", "popitem"]
OTHER = ["put", "put", "unset", "read", "bad", "copy", "deepcopy", "pickle",
         "repr", "convert", "plus", "eq", "json", "visit", "badattr"]


@st.composite
def histories(draw):
    spec = draw(specs())
    first = (draw(st.sampled_from(["pos", "values", "iter", "coll", "text",
                                   "none"])),
             draw(contents_of(spec)), attr_values(draw, spec, bad=1),
             draw(st.integers(0, 19)) == 0)
    ops = []
    item = item_values(spec[1])
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(
            (LIST_OPS if spec[0][-1] == "l" else DICT_OPS) + OTHER))
        n, k = draw(st.sampled_from(spec[2]))
        if op == "put":
            arg = (n, copy.deepcopy(draw(st.sampled_from(ATTRS[k][1]))))
        elif op == "badattr":
            arg = (n, draw(st.sampled_from(ATTRS[k][2] or [None])),
                   bool(ATTRS[k][2]))
        elif op in ("unset", "read"):
            arg = n
        elif op in ("append", "insert"):
            arg = (draw(st.integers(-5, 5)), draw(item))
        elif op == "set":
            arg = (draw(st.integers(-5, 5) if spec[0][-1] == "l" else KEYS),
                   draw(item))
        elif op in ("extend", "slice", "plus", "eq"):
            arg = (draw(st.integers(-3, 3)), draw(contents_of(spec, 3)))
        elif op == "update":
            arg = draw(contents_of(spec, 3))
        elif op in ("pop", "del", "bad", "cut"):
            arg = draw(st.integers(-5, 5) if spec[0][-1] == "l" else KEYS)
        elif op == "pickle":
            arg = draw(st.integers(0, pickle.HIGHEST_PROTOCOL))
        else:
            arg = draw(st.booleans())
        ops.append((op, arg))
    return (spec, first, ops)


# -- construction ------------------------------------------------------------
def construct(T, how, items, attrs, unknown):
    """(function which makes it, expected items)"""
    kw = copy.deepcopy(attrs)
    if unknown:
        kw["nosuch"] = 1
    vs = T.items(items)
    if how == "values":
        return lambda: T.cls(values=vs, **kw)
    if how == "iter":
        return lambda: T.cls(values=iter(
            vs if T.kind == "l" else vs.items()), **kw)
    if how == "coll":
        return lambda: T.cls(values=T.bare(values=vs), **kw)
    if how == "none":
        return lambda: T.cls(**kw)
    if how == "text" and T.json:
        return lambda: T.cls(json.dumps(T.plain(items)), **kw)
    return lambda: T.cls(vs, **kw)


BAD = {"int": "no", "rec": 5, "jrec": 5}


class Stop(Exception):
    """the operation is not applicable"""


def apply_item_op(T, op, arg, items):
    """the operation on the model's items: (result kind, error class)"""
    if T.kind == "l":
        if op == "append":
            items.append(arg[1])
        elif op == "extend":
            items.extend(arg[1])
        elif op == "insert":
            items.insert(*arg)
        elif op == "pop":
            return items.pop(arg)
        elif op == "set":
            items[arg[0]] = arg[1]
        elif op == "del":
            del items[arg]
        elif op == "slice":
            items[arg[0]:] = arg[1]
        elif op == "cut":
            del items[arg:]
        elif op == "reverse":
            items.reverse()
    elif op == "set":
        items[arg[0]] = arg[1]
    elif op == "del":
        del items[arg]
    elif op == "pop":
        return items.pop(arg)
    elif op == "clear":
        items.clear()
    elif op == "update":
        items.update(arg)
    elif op == "popitem":
        return items.popitem()[1]


def real_item_op(T, op, arg, x):
    mk = T.mk
    if op == "append":
        x.append(mk(arg[1]))
    elif op == "extend":
        x.extend(T.items(arg[1]))
    elif op == "insert":
        x.insert(arg[0], mk(arg[1]))
    elif op == "set":
        x[arg[0]] = mk(arg[1])
    elif op == "del":
        del x[arg]
    elif op == "pop":
        return x.pop(arg)
    elif op == "slice":
        x[arg[0]:] = T.items(arg[1])
    elif op == "cut":
        del x[arg:]
    elif op == "update":
        x.update(T.items(arg))
    elif op == "popitem":
        return x.popitem()[1]
    else:
        getattr(x, op)()


def run(case, ctx):
    spec, first, ops = case
    T = types(spec)
    how, items, attrs, unknown = first
    if how == "none":
        items = [] if T.kind == "l" else {}
    make = construct(T, how, items, attrs, unknown)
    what = "%s(%s, %s) with attributes %s" % (
        T.cls.__name__, how, short(items), short(attrs))
    want = T.fresh(attrs, len(items))
    if want is None or unknown:
        must_raise((TypeError, ValueError, AttributeError, PropertyNotKnown),
                   make, what)
        ctx.event("refused")
        return
    x = must_not_raise(make, what)
    state = [copy.deepcopy(items), want]
    known(T, x, state, what)
    for op, arg in ops:
        what = "%s(%s) of %s" % (op, short(arg), short(x))
        x = step(T, op, arg, x, state, what, ctx)
        known(T, x, state, "after " + what)
    ctx.hit(bool(state[0]) and bool(state[1]))
    ctx.event(spec[0])


def known(T, x, state, what):
    check(type(x) is T.cls, "%s: a %s", what, type(x))
    got = must_not_raise(lambda: T.state(x), what)
    same(got[0], state[0], "items, " + what)
    same(got[1], state[1], "attributes, " + what)
    same(len(x), len(state[0]), "len(), " + what)


def step(T, op, arg, x, state, what, ctx):
    items, attrs = state
    if op == "put" or op == "badattr":
        n, v = arg[:2]
        bad = op == "badattr" and arg[2]
        if op == "badattr" and not bad:
            return x
        if bad or T.attrs[n] == "ro":
            must_raise((TypeError, ValueError, AttributeError),
                       lambda: setattr(x, n, v), what)
        else:
            must_not_raise(lambda: setattr(x, n, copy.deepcopy(v)), what)
            attrs[n] = v
    elif op == "unset":
        r = attempt(lambda: delattr(x, arg))
        if T.attrs[arg] in ("ro", "req"):
            check(isinstance(r, Raised) and isinstance(r.exc, (
                AttributeError, ValueError)), "%s: %s", what, short(r))
        elif arg in attrs:
            check(not isinstance(r, Raised), "%s: %s", what, short(r))
            del attrs[arg]
        else:
            attempt(lambda: r)
    elif op == "read":
        if T.attrs[arg] == "lazy" and arg not in attrs:
            attrs[arg] = len(items)
        if arg in attrs:
            same(must_not_raise(lambda: getattr(x, arg), what), attrs[arg],
                 what)
        else:
            must_raise(AttributeError, lambda: getattr(x, arg), what)
            check(not getattr(x, arg + "0"), "%s: %s0 is true", what, arg)
    elif op == "bad":
        if T.item == "str":
            return x            # (everything can be made text)
        bad = BAD[T.item]
        must_raise(TypeError, lambda: x.__setitem__(
            0 if T.kind == "l" else arg, bad), what)
        if T.kind == "l":
            must_raise(TypeError, lambda: x.append(bad), what)
            must_raise(TypeError, lambda: x.__setitem__(
                slice(0, 1), [bad]), what)
    elif op in ("copy", "deepcopy", "pickle", "repr"):
        return copies(T, op, arg, x, state, what)
    elif op == "convert":
        given = {n: copy.deepcopy(v) for n, v in attrs.items()
                 if T.attrs[n] == "req"}
        y = must_not_raise(lambda: T.cls(values=x, **given), what)
        known(T, y, [items, T.fresh(given, len(items))], what)
    elif op == "plus":
        if T.kind == "l" and "req" not in T.attrs.values():
            y = must_not_raise(lambda: x + T.items(arg[1]), what)
            both = items + arg[1]
            known(T, y, [both, T.fresh({}, len(both))], what)
    elif op == "eq":
        equal(T, arg[1], x, state, what)
    elif op == "json":
        jsons(T, arg, x, state, what)
    elif op == "visit":
        visits(T, arg, x, state, what)
    else:
        r = attempt(lambda: apply_item_op(T, op, arg, items))
        got = attempt(lambda: real_item_op(T, op, arg, x))
        if isinstance(r, Raised):
            check(isinstance(got, Raised) and isinstance(
                got.exc, type(r.exc)), "%s: %s instead of %s", what,
                short(got), short(r))
        else:
            check(not isinstance(got, Raised), "%s: %s", what, short(got))
            if op in ("pop", "popitem"):
                same(T.un(got), r, what)
    return x


def copies(T, op, arg, x, state, what):
    if op == "copy":
        return must_not_raise(lambda: copy.deepcopy(copy.copy(x)), what)
    if op == "deepcopy":
        y = must_not_raise(lambda: copy.deepcopy(x), what)
    elif op == "pickle":
        y = must_not_raise(lambda: pickle.loads(pickle.dumps(x, arg)), what)
    else:
        y = must_not_raise(lambda: eval(repr(x), vars(lib.schema)), what)
    check(y == x and not y != x, "%s: %s", what, short(y))
    if op == "repr":
        # (a deleted attribute has its default again)
        state[1] = T.fresh(state[1], len(state[0]))
    known(T, y, state, what)
    # (the old one is no longer used: nothing done to it shows)
    for n in state[1]:
        if isinstance(getattr(x, n, None), list):
            getattr(x, n).append("spoilt")
    if T.kind == "l":
        del x[:]
    else:
        x.clear()
    return y


def equal(T, other, x, state, what):
    items, attrs = state
    given = {n: copy.deepcopy(v) for n, v in attrs.items()
             if T.attrs[n] == "req"}
    y = T.cls(values=T.items(items), **given)
    check(x == y and not x != y, "%s: not equal to %s", what, short(y))
    z = T.cls(values=T.items(other), **given)
    check((x == z) is (items == other) and (x != z) is (items != other),
          "%s: == %s is %s", what, short(z), x == z)
    if "req" not in T.attrs.values():
        check((x == T.items(other)) is (items == other), "%s: == %s is %s",
              what, short(other), x == T.items(other))
        check(x == T.items(items), "%s: not equal to its items", what)


def jsons(T, extra, x, state, what):
    items, attrs = state
    got = must_not_raise(lambda: to_json(x, extra), what)
    same(got, T.plain(items), "to_json in " + what)
    if T.json:
        same(x.json_data(), got, "json_data in " + what)
    given = {n: copy.deepcopy(v) for n, v in attrs.items()
             if T.attrs[n] == "req"}
    if not given:
        y = must_not_raise(lambda: from_json(T.cls, got), what)
        known(T, y, [items, T.fresh({}, len(items))], "from_json in " + what)
        y = must_not_raise(lambda: from_json(T.cls, json.dumps(got)), what)
        known(T, y, [items, T.fresh({}, len(items))], "from_json in " + what)


def visits(T, extra, x, state, what):
    items, attrs = state
    for n, k in T.attrs.items():
        if k == "lazy" and n not in attrs:
            attrs[n] = len(items)       # computed by the visit
    got = must_not_raise(lambda: VisitorPattern.visit(x, extraneous=extra),
                         what)
    seen = {n: v for n, v in attrs.items() if v is not None and (
        extra or T.attrs[n] != "extra")}
    if all(k == "extra" for k in T.attrs.values()) and not extra:
        want = items
    else:
        want = dict(seen, values=items)
    same(got, want, "visit in " + what)
    if {"any", "lazy"} & set(T.attrs.values()):
        return
    y = must_not_raise(lambda: VisitorPattern.cast(
        T.cls, got, extraneous=extra), what)
    # (what was not set, or not visited, has its default)
    known(T, y, [items, T.fresh(seen, len(items))], "cast in " + what)


# -- comparison --------------------------------------------------------------
CMP = ("str", "int", "dflt", "extra", "check")


@st.composite
def pairs(draw):
    spec = draw(specs(kinds=CMP))
    a = draw(contents_of(spec))
    b = a if draw(st.booleans()) else draw(contents_of(spec))
    u = attr_values(draw, spec)
    v = dict(u) if draw(st.integers(0, 2)) else attr_values(draw, spec)
    for n, x in attr_values(draw, spec, 0.2).items():
        v[n] = x
    opts = {n: draw(st.booleans()) for n in (
        "unchanged", "moved", "fuzzy_match", "extraneous") if draw(
            st.booleans())}
    return (spec, a, u, b, v, draw(st.booleans()), opts)


def reports(diffs):
    return [(d.diff_type.canonical_name, list(d.base.selectors),
             list(d.other.selectors)) for d in diffs]


def alike(got, want, what):
    same(sorted(got, key=repr), sorted(want, key=repr), what)


_holders = {}


def compare(case, ctx):
    """attributes as in records, items as in collections without any"""
    spec, a, u, b, v, inside, opts = case
    T = types(spec)
    x = T.cls(values=T.items(a), **u)
    y = T.cls(values=T.items(b), **v)
    u, v = T.fresh(u, len(a)), T.fresh(v, len(b))
    what = "diff of %s with %s (%s)" % (short(x), short(y), opts)
    drop = 0
    p, q = x, y
    if inside:
        if T.cls not in _holders:
            _holders[T.cls] = _declare(Record, {"c": Property(isa=T.cls)})
        p, q = _holders[T.cls](c=x), _holders[T.cls](c=y)
        drop = 1
    got = must_not_raise(lambda: list(diff_iter(p, q, **opts)), what)
    mine, rest = [], []
    for d in got:
        path = list(d.base.selectors)[drop:]
        other = list(d.other.selectors)[drop:]
        # (a key may be named like an attribute)
        if path == other and len(path) == 1 and path[0] in T.attrs:
            mine.append((d.diff_type.canonical_name, path, other))
        else:
            rest.append((d.diff_type.canonical_name, path, other))
    want = []
    for n, k in T.attrs.items():
        if k == "extra" and not opts.get("extraneous"):
            continue
        if n in u and n in v:
            if u[n] != v[n]:
                want.append(("modified", [n], [n]))
            elif opts.get("unchanged"):
                want.append(("none", [n], [n]))
        elif n in u:
            want.append(("removed", [n], [n]))
        elif n in v:
            want.append(("added", [n], [n]))
    p, q = T.bare(values=T.items(a)), T.bare(values=T.items(b))
    items = reports(must_not_raise(lambda: list(diff_iter(p, q, **opts)),
                                   what))
    if not inside:
        alike(mine + rest, want + items, what)
    else:
        # (differing in nothing but their places, or extraneous)
        alike([x for x in mine + rest if x[1] or x[2]], want + items, what)
    same(T.state(x)[0], a, "items after " + what)
    same(T.state(y)[1], v, "attributes after " + what)
    ctx.hit(bool(want) and bool(items))
    ctx.event("%s%s" % (spec[0], " inside" if inside else ""))


# -- selectors ---------------------------------------------------------------
@st.composite
def paths(draw):
    spec = draw(specs(bases=("l", "jl", "l", "jl", "d"),
                      kinds=("str", "int", "any", "dflt", "extra", "list",
                             "check")))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        n, k = draw(st.sampled_from(spec[2]))
        op = draw(st.sampled_from(["get", "put", "post", "delete", "bad"]))
        ops.append((op, n, copy.deepcopy(draw(st.sampled_from(
            ATTRS[k][2] or [None] if op == "bad" else ATTRS[k][1])))))
    return (spec, draw(contents_of(spec)), attr_values(draw, spec), ops)


def selecting(case, ctx):
    spec, items, attrs, ops = case
    T = types(spec)
    if T.cls not in _holders:
        _holders[T.cls] = _declare(Record, {"c": Property(isa=T.cls)})
    H = _holders[T.cls]
    h = H(c=T.cls(values=T.items(items), **copy.deepcopy(attrs)))
    state = [items, T.fresh(attrs, len(items))]
    for op, n, v in ops if T.kind == "l" else []:
        fs = FieldSelector(["c", n])
        what = "%r.%s of %s" % (fs, op, short(h))
        now = state[1]
        if op == "get":
            if n in now:
                same(must_not_raise(lambda: fs.get(h), what), now[n], what)
            else:
                must_raise(AttributeError, lambda: fs.get(h), what)
                check(fs.get_or_none(h) is None, what)
        elif op in ("put", "post"):
            must_not_raise(lambda: getattr(fs, op)(h, copy.deepcopy(v)),
                           what)
            now[n] = v
        elif op == "delete":
            if n in now:
                must_not_raise(lambda: fs.delete(h), what)
                del now[n]
            else:
                attempt(lambda: fs.delete(h))
        elif ATTRS[T.attrs[n]][2]:
            must_raise((TypeError, ValueError), lambda: fs.put(h, v), what)
        known(T, h.c, state, "after " + what)
        for i, _x in enumerate(items):
            same(T.un(FieldSelector(["c", i]).get(h)), items[i],
                 "item %d after %s" % (i, what))
    # multi-selectors which select all of it keep its attributes
    for mfs in (MultiFieldSelector(["c"]), MultiFieldSelector([None])):
        what = "%r.get(%s)" % (mfs, short(h))
        got = must_not_raise(lambda: mfs.get(h), what)
        # (no attributes which are None)
        known(T, got.c, state, what)
        check(got.c is not h.c, what)
        if mfs.path == MultiFieldSelector([None]).path:
            continue
        other = H()
        must_not_raise(lambda: mfs.patch(other, h), what)
        known(T, other.c, state, "patch by %r" % mfs)
        known(T, h.c, state, "after " + what)
        mfs.delete(other)
        check(not hasattr(other, "c") or not len(other.c), "delete by %r",
              mfs)
    one = MultiFieldSelector(["c", None])
    got = must_not_raise(lambda: one.get(h), "%r.get" % one)
    same(T.contents(got.c), items, "items by %r" % one)
    ctx.hit(bool(items) and bool(state[1]))
    ctx.event(spec[0])


# -- conversion functions ------------------------------------------------------
@st.composite
def wrapped(draw):
    spec = draw(specs(bases=("jl", "jd"),
                      kinds=("str", "int", "dflt", "any", "count", "req")))
    return (spec, draw(contents_of(spec)), attr_values(draw, spec),
            draw(st.booleans()))


_wrapped = {}


def wrapping(case, ctx):
    """a JSON list (dict) within an object that has the attributes, too"""
    spec, items, attrs, text = case
    T = types(spec)
    if T.cls not in _wrapped:
        base = T.cls

        def json_to_initkwargs(cls, doc, kwargs):
            kwargs.update({k: v for k, v in doc.items() if k != "data"})
            return super(new, cls).json_to_initkwargs(doc["data"], kwargs)

        def json_data(self, extraneous=False):
            out = {n: getattr(self, n) for n in type(self).properties
                   if hasattr(self, n) and n != "unknown_json_keys"}
            out["data"] = super(new, self).json_data(extraneous)
            return out
        new = _declare(base, {
            "json_to_initkwargs": classmethod(json_to_initkwargs),
            "json_data": json_data})
        _wrapped[base] = new
    cls = _wrapped[T.cls]
    want = T.fresh(attrs, len(items))
    doc = dict(attrs, data=T.plain(items))
    keep = copy.deepcopy(doc)
    what = "from_json(%s)" % short(doc)
    for fn in (lambda: from_json(cls, json.dumps(doc) if text else doc),
               lambda: cls(doc)):
        if want is None:
            must_raise((TypeError, ValueError), fn, what)
            continue
        x = must_not_raise(fn, what)
        check(type(x) is cls, "%s: a %s", what, type(x))
        same(T.state(x), (items, want), what)
        same(x.json_data(), dict(want, data=keep["data"]),
             "json_data of " + what)
    same(doc, keep, "the document after " + what)
    ctx.hit(bool(items) and bool(attrs))
    ctx.event("refused" if want is None else spec[0])


PARTS = [
    Part("history", histories, run, quick=3000),
    Part("compare", pairs, compare, quick=1500),
    Part("paths", paths, selecting, quick=1000),
    Part("wrapped", wrapped, wrapping, quick=800),
]
