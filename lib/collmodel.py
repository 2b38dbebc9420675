"""Typed collections of several flavours and item types, with the reference
coercion of their items."""
from hypothesis import strategies as st

from lib.decl import (
    Bad, Kid, Obj, SubStr, TYPES, V, equal_value, even, evenc, mat,
    model_accept,
)
from lib.harness import check, short, strict_eq
from normalize import JsonRecord, Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonDictProperty, JsonListProperty
from normalize.record.json import JsonRecordDict, JsonRecordList

ITEMS = ["int", "str", "even", "evenc", "kid", "float", "halved"]
LIST_ITEMS = ITEMS + ["tuple", "any"]
VARIANTS = ["gen", "sub", "json", "jgen", "slot", "jslot", "extra"]


class Halved(object):
    """marker: int items with an own coerceitem function"""


def halve(x):
    # returns something of the wrong type for some values
    if isinstance(x, str):
        return int(x) // 2
    return x


_cache = {}


def itemtype(item):
    return {"halved": int, "tuple": tuple, "any": object}.get(
        item) or TYPES[item]


def coerce_item(item, v):
    """reference: the item stored for v, or Bad"""
    if item == "halved":
        if isinstance(v, int):
            return v
        try:
            r = halve(v)
        except Exception:
            raise Bad("coerce")
        if not isinstance(r, int):
            raise Bad("coerce")
        return r
    if item == "any":
        return v
    if item == "tuple":
        try:
            return v if isinstance(v, tuple) else tuple(v)
        except TypeError:
            raise Bad("coerce")
    return model_accept({"isa": item}, v)


def coll_class(kind, item, variant):
    key = (kind, item, variant)
    if key not in _cache:
        t = itemtype(item)
        ns = {"itemtype": t, "__module__": __name__}
        if item == "halved":
            ns["coerceitem"] = staticmethod(halve)
        base = ListCollection if kind == "l" else DictCollection
        jbase = JsonRecordList if kind == "l" else JsonRecordDict
        if variant in ("json", "jslot") or (
                variant == "jgen" and item == "halved"):
            c = type(jbase)("J%s%s" % (kind, item), (jbase,), ns)
        elif variant == "jgen":
            c = (JsonListProperty if kind == "l" else JsonDictProperty)(
                of=t).valuetype
        elif variant in ("gen", "slot") and item != "halved":
            c = (list_of if kind == "l" else dict_of)(t)
        else:
            if variant == "extra":
                ns["page"] = Property(isa=int)
                ns["note"] = Property(extraneous=True)
            c = type(base)("S%s%s%s" % (kind, item, variant), (base,), ns)
        _cache[key] = c
    return _cache[key]


def holder(kind, item, variant):
    """a record type with a slot of that collection type"""
    key = (kind, item, variant, "holder")
    if key not in _cache:
        c = coll_class(kind, item, variant)
        if variant == "slot" and item != "halved":
            p = (ListProperty if kind == "l" else DictProperty)(
                of=itemtype(item))
        else:
            p = Property(isa=c)
        _cache[key] = type(Record)("H" + c.__name__, (Record,), {
            "items": p, "__module__": __name__})
    return _cache[key]


def new(kind, item, variant, items):
    """-> (collection, accessor); items are already of the item type"""
    cls = coll_class(kind, item, variant)
    if variant in ("slot", "jslot"):
        h = holder(kind, item, variant)(items=items)
        return h.items, lambda: h.items
    kw = {"page": 3, "note": [1]} if variant == "extra" else {}
    c = cls(values=items, **kw)
    return c, lambda: c


def item_values(item, bad=True):
    """literal item values: of the type, coercible and (if bad) not"""
    good = {
        "int": st.integers(-3, 6) | st.sampled_from(["5", "-1", 2.5, True]),
        "halved": st.integers(-3, 6) | st.sampled_from(["5", "-1", "4"]),
        "float": st.sampled_from([0.0, 1.5, -2.25]) | st.sampled_from(
            ["1.5", 3, ("@", "nan", 0), ("@", "nan", 1)]),
        "str": st.sampled_from(["", "a", "b", "ab", 5, 1.5, None]),
        "even": st.sampled_from([0, 2, 4, -2]),
        "evenc": st.sampled_from([0, 2, 4, 3, "5", 7.9]),
        "kid": st.integers(0, 3).map(lambda n: ("@", "kid", n)) |
        st.integers(0, 3).map(lambda n: {"n": n}),
        "tuple": st.sampled_from([
            (), (1,), (2,), (1, 2), (2, 1), (1, 2, 3), [1, 2], [],
            [3]]),
        "any": st.sampled_from([
            None, 0, 1, True, 1.0, "", "a", (), (1,), (1, 2), [1], [], {},
            {"a": 1}, ("@", "nan", 0), ("@", "nan", 1), ("@", "kid", 1),
            ("@", "obj", 1)]),
    }[item]
    if not bad:
        return good
    wrong = {
        "int": ["x", None, [1], ("@", "obj", 1)],
        "halved": ["x", None, 2.5, [1]],
        "float": ["x", None, [1]],
        "str": ["a"],        # everything has a str()
        "even": [1, "2", None, 2.0],
        "evenc": ["x", None],
        "kid": ["x", 7, {"zz": 1}, {"n": "x"}],
        "tuple": [3, None, 2.5],
        "any": [None],
    }[item]
    return st.one_of(good, good, good, st.sampled_from(wrong))


def of_type(item, v):
    return isinstance(v, itemtype(item))
