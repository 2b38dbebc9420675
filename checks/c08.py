"""C08: typed dicts behave like Python dicts of coerced values."""
import collections
import types

from hypothesis import strategies as st

from lib import collmodel as cm
from lib.decl import Bad, equal_value, mat
from lib.harness import Part, Raised, attempt, check, short
from normalize import exc
from normalize.coll import dict_of

PROPERTY = "C08"
RULE = (
    "A case is a dict type (value type x flavour: generic, declared, JSON, "
    "in a record slot, with extra attributes), initial entries and a history "
    "of 1-12 dict operations with present and absent keys of several types, "
    "coercible and uncoercible values.  Non-trivial: at least two operations "
    "changed a dict that was not empty, or one was rejected while the dict "
    "held entries.")

KEYS = st.sampled_from(["a", "b", "c", "", "k 1", 0, 1, 2, True, (1, 2),
                        None, "items"])
SKEYS = st.sampled_from(["a", "b", "c", "kw", "x"])
HOWS = ["dict", "pairs", "gen", "coll", "ordered", "proxy", "chain", "other"]


@st.composite
def histories(draw):
    item = draw(st.sampled_from(cm.ITEMS))
    variant = draw(st.sampled_from(cm.VARIANTS))
    vals = cm.item_values(item)
    good = cm.item_values(item, bad=False)
    init = draw(st.dictionaries(KEYS, good, max_size=5))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from([
            "get", "set", "set", "set", "del", "update", "update", "updatekw",
            "pop", "popitem", "clear", "in", "eq", "new", "badkey", "empty",
            "updatekw", "self", "fail"]))
        if op in ("get", "del", "pop", "in"):
            a = (draw(KEYS),)
        elif op == "set":
            a = (draw(KEYS), draw(vals))
        elif op in ("update", "eq", "new"):
            a = (draw(st.dictionaries(KEYS, vals, max_size=4)),
                 draw(st.sampled_from(HOWS)))
        elif op == "self":
            a = (draw(st.sampled_from(["update", "eq", "new", "items"])),)
        elif op == "fail":
            a = (draw(st.sampled_from(["update", "new"])),
                 draw(st.dictionaries(KEYS, vals, max_size=3)),
                 draw(st.sampled_from(["oops", "triple", "int", "None"])))
        elif op == "updatekw":
            a = (draw(st.none() | st.dictionaries(KEYS, vals, max_size=2)),
                 draw(st.dictionaries(SKEYS, vals, max_size=3)))
        elif op == "clear" and draw(st.integers(0, 2)):
            op, a = "len", ()
        else:
            a = ()
        ops.append((op,) + a)
    return (item, variant, list(init.items()), ops)


def verify(item, c, model, what):
    ks = list(model)
    check(c.keys() == ks and [type(k) for k in c.keys()] ==
          [type(k) for k in ks], "%s: keys %s, expected %s", what,
          short(c.keys()), short(ks))
    got = list(c.items())
    check([k for k, v in got] == ks, "%s: items %s", what, short(got))
    check(all(x is y or equal_value(x, y) for (_, x), y in zip(
        got, model.values())), "%s: contents %s, expected %s", what,
        short(got), short(model))
    objs = [v for k, v in got]
    for name, seq in (("values()", c.values()),
                      ("itervalues()", c.itervalues())):
        seq = list(seq)
        check(len(seq) == len(objs) and all(
            x is y for x, y in zip(seq, objs)), "%s: %s gives %s", what,
            name, short(seq))
    check(list(c) == ks, "%s: iteration gives %s", what, short(list(c)))
    check(list(c.iterkeys()) == ks and list(c.iteritems()) == got and list(
        c.itertuples()) == got, "%s: iterkeys/iteritems/itertuples", what)
    check(len(c) == len(model) and bool(c) is bool(model),
          "%s: len %d, expected %d", what, len(c), len(model))
    for k, v in got:
        check(cm.of_type(item, v), "%s: value at %r is %s", what, k, short(v))
        check(c[k] is v and k in c, "%s: [%r]", what, k)


class Oops(Exception):
    """raised by an iterable on the way"""


def stumble(pairs, how):
    for p in pairs:
        yield p
    if how == "oops":
        raise Oops()
    yield {"triple": (1, 2, 3), "int": 5, "None": None}[how]


def feed(how, pairs, item, variant):
    if how == "dict":
        return dict(pairs)
    if how == "ordered":
        return collections.OrderedDict(pairs)
    if how == "proxy":
        return types.MappingProxyType(dict(pairs))
    if how == "chain":
        return collections.ChainMap(dict(pairs))
    if how == "pairs":
        return list(pairs)
    if how == "gen":
        return (p for p in pairs)
    if how == "other":
        return dict_of(object)(dict(pairs))
    return cm.new("d", item, variant, dict(pairs))[0]


def run(case, ctx):
    item, variant, init, ops = case
    cls = cm.coll_class("d", item, variant)
    model = {k: cm.coerce_item(item, mat(v)) for k, v in init}
    c, acc = cm.new("d", item, variant, dict(model))
    check(type(c) is cls, "type %s", type(c).__name__)
    verify(item, c, model, "new")
    changed = rejected = 0
    for op in ops:
        name = op[0]
        before = dict(model)
        what = "%s%s on %s" % (name, short(op[1:]), short(model))
        if name == "badkey":
            for f in (lambda: acc()[[1]],
                      lambda: [1] in acc(),
                      lambda: acc().__setitem__([1], model)):
                r = attempt(f)
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "unhashable key: %s", short(r))
            verify(item, c, model, what)
            continue
        if name == "len":
            continue
        if name == "empty":
            acc().update()
            acc().update({})
            acc().update([])
            acc().update(None) if False else None
            verify(item, c, model, what)
            continue
        if name == "self":
            def mine(x):
                if op[1] == "update":
                    x.update(x)
                elif op[1] == "items":
                    x.update(list(x.items()))
                elif op[1] == "eq":
                    return x == x and not x != x
                else:
                    return dict((cls(values=x) if x is acc() else x).items())
            m, r = mine(model), attempt(mine, acc())
            check(not isinstance(r, Raised), "%s: %r", what, r)
            check(r is m or equal_value(r, m), "%s: %s", what, short(r))
            verify(item, c, model, what)
            continue
        if name == "fail":
            pairs = [(k, mat(v)) for k, v in op[2].items()]
            arg = list(pairs)
            want = {}
            for k, v in pairs:
                try:
                    want[k] = cm.coerce_item(item, v)
                except Bad:
                    pass
            arg = stumble(arg, op[3])
            if op[1] == "new":
                # (as values, not pairs, by index)
                if op[3] != "oops" or variant[0] == "j":
                    continue
                r = attempt(lambda: cls(values=arg))
                check(isinstance(r, Raised), "%s: accepted", what)
            else:
                r = attempt(lambda: acc().update(arg))
                check(isinstance(r, Raised), "%s: accepted", what)
                if len(want) == len(pairs):
                    check(isinstance(r.exc, {
                        "oops": Oops, "triple": ValueError}.get(
                            op[3], TypeError)), "%s: %r", what, r)
                for k, v in c.items():
                    check(cm.of_type(item, v) and (
                        k in before and equal_value(before[k], v) or
                        k in want and equal_value(want[k], v)),
                        "%s: left %r: %s", what, k, short(v))
                for k in before:
                    check(k in c, "%s: lost %r", what, k)
                model = dict(c.items())
            verify(item, c, model, what)
            continue
        if name in ("update", "updatekw", "eq", "new"):
            none = op[1] is None
            pairs = [(k, mat(v)) for k, v in (op[1] or {}).items()]
            how = op[2] if name != "updatekw" else "dict"
            kw = [(k, mat(v)) for k, v in op[2].items()] \
                if name == "updatekw" else []
            want, badkeys, any_of = {}, [], []
            for k, v in pairs + kw:
                try:
                    want[k] = cm.coerce_item(item, v)
                    any_of.append((k, want[k]))
                except Bad:
                    badkeys.append(k)
            if how == "coll" and badkeys:
                how = "dict"
            if how == "coll":
                pairs = [(k, want[k]) for k, _ in pairs]
            if how == "chain":
                # same order as iterating the mapping
                pairs = list(collections.ChainMap(dict(pairs)).items())
            arg = feed(how, pairs, item, variant)
        if name == "get":
            r, m = attempt(lambda: acc()[op[1]]), attempt(
                lambda: model[op[1]])
        elif name == "in":
            r, m = attempt(lambda: op[1] in acc()), op[1] in model
        elif name == "pop":
            r, m = attempt(lambda: acc().pop(op[1])), attempt(
                lambda: model.pop(op[1]))
        elif name == "popitem":
            r, m = attempt(lambda: acc().popitem()), attempt(model.popitem)
        elif name == "clear":
            r, m = attempt(lambda: acc().clear()), model.clear()
        elif name == "del":
            def dc():
                del acc()[op[1]]

            def dm():
                del model[op[1]]
            r, m = attempt(dc), attempt(dm)
        elif name == "set":
            v = mat(op[2])

            def sc():
                acc()[op[1]] = v
            r = attempt(sc)
            try:
                model[op[1]] = cm.coerce_item(item, v)
                m = None
                if cm.of_type(item, v):
                    check(isinstance(r, Raised) or c[op[1]] is v,
                          "%s: not the very object given", what)
            except Bad:
                check(isinstance(r, Raised), "%s: accepted", what)
                check(isinstance(r.exc, exc.CoercionError) and isinstance(
                    r.exc, TypeError), "%s: %r", what, r)
                verify(item, c, model, what)
                rejected += bool(before)
                continue
        elif name in ("update", "updatekw"):
            if none:
                r = attempt(lambda: acc().update(**dict(kw)))
            else:
                r = attempt(lambda: acc().update(arg, **dict(kw)))
            if badkeys:
                check(isinstance(r, Raised), "%s: accepted", what)
                check(isinstance(r.exc, exc.CoercionError) and isinstance(
                    r.exc, TypeError), "%s: %r", what, r)
                rejected += bool(before)
                # any of the good ones may have been stored
                for k, v in c.items():
                    ok = k in before and equal_value(before[k], v) or \
                        any(k == k2 and equal_value(v2, v)
                            for k2, v2 in any_of)
                    check(ok and cm.of_type(item, v),
                          "%s: rejected update left %r: %s", what, k,
                          short(v))
                for k in before:
                    check(k in c, "%s: rejected update lost %r", what, k)
                model = dict(c.items())
                verify(item, c, model, what)
                continue
            m = None
            model.update(dict((k, want[k]) for k, _ in pairs),
                         **dict((k, want[k]) for k, _ in kw))
        elif name == "eq":
            if how == "other":
                check((acc() == arg) is False and (acc() != arg) is True,
                      "%s: equal to a collection of another item type", what)
            if badkeys or how in ("pairs", "gen", "proxy", "chain", "other"):
                continue
            r, m = acc() == arg, model == want
            check((acc() != arg) is not m, "%s: !=", what)
        elif name == "new":
            if how == "pairs":
                continue        # a sequence: the keys are the indexes
            if variant[0] == "j" and how != "coll":
                arg = dict(pairs)
            r = attempt(lambda: cls(values=arg))
            if badkeys:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "%s: %s", what, short(r))
                rejected += 1
            else:
                check(not isinstance(r, Raised), "%s: %r", what, r)
                verify(item, r, want, what)
                # shares no storage with its source
                r.clear()
                if how in ("dict", "coll", "ordered"):
                    check(len(arg) == len(want), "%s: source changed", what)
            verify(item, c, model, what)
            continue
        if isinstance(m, Raised):
            check(isinstance(r, Raised), "%s: %s, but a dict %r", what,
                  short(r), m)
            check(isinstance(r.exc, type(m.exc)), "%s: %r, but a dict %r",
                  what, r, m)
            rejected += bool(before)
        else:
            check(not isinstance(r, Raised), "%s: %r, but a dict gives %s",
                  what, r, short(m))
            check(r is m or equal_value(r, m) or (
                name == "popitem" and r[0] == m[0] and (
                    r[1] is m[1] or equal_value(r[1], m[1]))),
                "%s: %s, expected %s", what, short(r), short(m))
        check(acc() is c, "%s: the record now holds another dict", what)
        verify(item, c, model, what)
        if before and before != model:
            changed += 1
    if variant == "extra":
        check(c.page == 3 and c.note == [1],
              "extra attributes changed: %s", short(c))
    ctx.hit(changed >= 2 or rejected)
    ctx.event("%s changed %d rejected %d" % (
        variant, min(changed, 3), min(rejected, 2)))


# -- through a record slot and odd constructor arguments ---------------------------
@st.composite
def slots(draw):
    item = draw(st.sampled_from(cm.ITEMS))
    variant = draw(st.sampled_from(["gen", "sub", "slot", "extra", "jslot"]))
    how = draw(st.sampled_from(
        ["dict", "coll", "ordered", "gen", "list", "iter", "iter", "str",
         "int", "none", "float", "view"]))
    vals = cm.item_values(item)
    if how == "iter" and draw(st.booleans()):
        # values that look like pairs
        item, vals = "str", st.sampled_from(["ab", "xy", "a", "abc", ""])
    vals = draw(st.dictionaries(KEYS, vals, max_size=4))
    return (item, variant, list(vals.items()), how)


def slot(case, ctx):
    item, variant, raw, how = case
    cls = cm.coll_class("d", item, variant)
    json = variant == "jslot"
    if how in ("str", "int", "float"):
        for arg in {"str": ["ab", "x"], "int": [5, -1, True],
                    "float": [2.5]}[how]:
            r = attempt(lambda: cls(arg))
            check(isinstance(r, Raised) and isinstance(
                r.exc, (TypeError, ValueError)), "%s(%r): %s", cls.__name__,
                arg, short(r))
            H = cm.holder("d", item, variant)
            h = H(items={})
            old = h.items
            r = attempt(lambda: setattr(h, "items", arg))
            check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
                  "slot assigned %r: %s", arg, short(r))
            check(h.items is old, "rejected assignment changed the slot")
        return
    if how == "none":
        for c in (cls(), cls(None), cls({}), cls(values={})):
            verify(item, c, {}, "empty construction")
        a, b = cls(), cls()
        a["k"] = mat({"kid": {"n": 1}, "str": "s"}.get(item, 4))
        verify(item, b, {}, "another empty dict")
        return
    pairs = [(k, mat(v)) for k, v in raw]
    want, bad = {}, False
    for i, (k, v) in enumerate(pairs):
        try:
            want[i if how in ("list", "iter") else k] = cm.coerce_item(item, v)
        except Bad:
            bad = True
    if how == "coll":
        if bad:
            return
        arg = cm.new("d", item, "sub", want)[0]
    elif how == "list":
        arg = [v for k, v in pairs]
    elif how == "iter":
        # bare values; only tuples of two are pairs
        arg = iter([v for k, v in pairs])
        if any(isinstance(v, tuple) for k, v in pairs):
            return
    elif how == "view":
        arg = dict(pairs).items()
    else:
        arg = feed(how, pairs, item, variant)
    H = cm.holder("d", item, variant)
    if json and (how not in ("dict", "ordered") or
                 any(v == {"zz": 1} for k, v in raw)):
        # (read as JSON, in which unknown keys are passed over)
        return
    if how in ("gen", "iter"):
        r = attempt(lambda: H(items=cls(arg)))
    else:
        r = attempt(lambda: H(items=arg))
    if bad or (how == "view" and isinstance(r, Raised)):
        # a view is neither a mapping nor a sequence: refusing it is fine,
        # losing its contents is not
        check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
              "slot initialised with %s: %s", short(arg), short(r))
    else:
        check(not isinstance(r, Raised), "slot from %s: %r", short(arg), r)
        verify(item, r.items, want, "slot from %s" % how)
        if how in ("dict", "ordered"):
            arg["new key"] = None
            verify(item, r.items, want, "after changing the source")
            r.items.clear()
            check(len(arg) == len(want) + 1, "source changed")
        if how == "coll":
            # a collection of another type is unpacked into a new one
            r.items.clear()
            if cls is not cm.coll_class("d", item, "sub"):
                verify(item, arg, want, "source")
    ctx.hit(len(raw) > 1)


PARTS = [
    Part("history", histories, run, quick=4000),
    Part("slot", slots, slot, quick=2500),
]
