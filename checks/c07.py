"""C07: typed lists behave like Python lists of coerced items."""
from hypothesis import strategies as st

from lib import collmodel as cm
from lib.decl import Bad, equal_value, mat
from lib.harness import Part, Raised, attempt, check, short
from lib.schema import lists
from normalize import exc
from normalize.coll import ListCollection, list_of

PROPERTY = "C07"
RULE = (
    "A case is a list type (item type x flavour: generic, declared, JSON, in "
    "a record slot, with extra attributes), initial items and a history of "
    "1-12 list operations with boundary and out-of-range indexes, slices, "
    "coercible and uncoercible items.  Non-trivial: at least two operations "
    "changed a list that was not empty, or one was rejected while the list "
    "held items.")

FAR = st.sampled_from([-21, -11, -10, 8, 9, 10, 11, 12, 14])
IDX = st.integers(0, 7).flatmap(lambda i: st.integers(-7, 7) if i else FAR)
SIDX = st.integers(0, 7).flatmap(
    lambda i: st.none() | st.integers(-6, 6) if i else FAR)
HOWS = ["list", "tuple", "gen", "coll", "iter", "other"]


class Oops(Exception):
    """raised by an iterable on the way"""


def failing(vals):
    for v in vals:
        yield v
    raise Oops()


@st.composite
def histories(draw):
    item = draw(st.sampled_from(cm.LIST_ITEMS))
    variant = draw(st.sampled_from(cm.VARIANTS))
    vals = cm.item_values(item)
    good = cm.item_values(item, bad=False)
    init = draw(lists(good, 6))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from([
            "append", "extend", "insert", "pop", "popi", "remove", "reverse",
            "sort", "index", "count", "get", "slice", "set", "setslice",
            "del", "delslice", "in", "add", "iadd", "eq", "new", "insert",
            "self", "fail", "badidx"]))
        if op in ("append", "count", "remove", "in"):
            a = (draw(vals),)
        elif op in ("extend", "add", "iadd", "eq", "new"):
            a = (draw(st.lists(vals, max_size=4)),
                 draw(st.sampled_from(HOWS)))
        elif op == "self":
            a = (draw(st.sampled_from(["extend", "extend", "add", "setslice",
                                       "eq", "new", "insert"])),
                 draw(SIDX), draw(SIDX))
        elif op == "fail":
            a = (draw(st.sampled_from(["extend", "setslice", "new"])),
                 draw(st.lists(vals, max_size=3)), draw(SIDX), draw(SIDX))
        elif op == "badidx":
            a = (draw(st.sampled_from([None, "0", 0.0, "a", (0,)])),)
        elif op == "insert":
            a = (draw(IDX), draw(vals))
        elif op in ("popi", "get", "del"):
            a = (draw(IDX),)
        elif op == "sort":
            a = (draw(st.sampled_from([None, "str", "neg"])),
                 draw(st.booleans()))
        elif op == "index":
            a = (draw(vals),) + tuple(draw(st.lists(IDX, max_size=2)))
        elif op == "set":
            a = (draw(IDX), draw(vals))
        elif op == "slice" or op == "delslice":
            a = (draw(SIDX), draw(SIDX), draw(st.sampled_from(
                [None, None, 1, 2, -1, -2, 0])))
        elif op == "setslice":
            a = (draw(SIDX), draw(SIDX), draw(st.sampled_from(
                [None, None, None, 1, 2, -1])),
                draw(st.lists(vals, max_size=4)),
                draw(st.sampled_from(HOWS)))
        else:
            a = ()
        ops.append((op,) + a)
    return (item, variant, init, ops)


def same_list(got, want):
    return len(got) == len(want) and all(
        x is y or equal_value(x, y) for x, y in zip(got, want))


def verify(item, c, model, what):
    got = list(c)
    check(same_list(got, model), "%s: contents %s, expected %s", what,
          short(got), short(model))
    check(len(c) == len(model), "%s: len %d, expected %d", what, len(c),
          len(model))
    check(bool(c) is bool(model), "%s: bool()", what)
    for i, x in enumerate(got):
        check(cm.of_type(item, x), "%s: item %d is %s", what, i, short(x))
        check(c[i] is x, "%s: [%d] is not the item iterated", what, i)


def feed(how, cls, vals):
    """the iterable argument in some form; coll only for good items"""
    if how == "tuple":
        return tuple(vals)
    if how == "gen":
        return (x for x in vals)
    if how == "iter":
        return iter(vals)
    if how == "other":
        return list_of(object)(vals)
    return list(vals)


KEYS = {"str": str, "neg": lambda x: -x, None: None}


def run(case, ctx):
    item, variant, init, ops = case
    cls = cm.coll_class("l", item, variant)
    model = [cm.coerce_item(item, mat(v)) for v in init]
    c, acc = cm.new("l", item, variant, list(model))
    check(type(c) is cls, "type %s", type(c).__name__)
    verify(item, c, model, "new")
    changed = rejected = 0

    def co(v):
        return cm.coerce_item(item, v)

    for op in ops:
        what = "%s%s on %s" % (op[0], short(op[1:]), short(model))
        before = list(model)
        bad = False         # an item that cannot be coerced takes part
        vals = None
        if op[0] == "badidx":
            def put(x):
                x[op[1]] = x[0] if x else 0

            def rm(x):
                del x[op[1]]
            for f in (lambda x: x[op[1]], lambda x: x.pop(op[1]), rm):
                r, m = attempt(f, acc()), attempt(f, list(model))
                check(isinstance(r, Raised) and isinstance(
                    r.exc, type(m.exc)), "%s: %s, not %r", what, short(r), m)
            if model:
                r = attempt(put, acc())
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "%s: assignment: %s", what, short(r))
            verify(item, c, model, what)
            continue
        if op[0] == "self":
            sl = slice(op[2], op[3])

            def mine(x):
                if op[1] == "extend":
                    x.extend(x)
                elif op[1] == "setslice":
                    x[sl] = x
                elif op[1] == "eq":
                    return x == x
                elif op[1] == "insert":
                    return x.insert(op[2] or 0, x[0])
                elif op[1] == "add":
                    return list(x + x)
                else:
                    return list(cls(values=x)) if x is acc() else list(x)
            m = attempt(mine, model)
            r = attempt(mine, acc())
            check(isinstance(r, Raised) == isinstance(m, Raised),
                  "%s: %s, but a list %s", what, short(r), short(m))
            if isinstance(m, Raised):
                check(isinstance(r.exc, type(m.exc)), "%s: %r", what, r)
            else:
                check(r is m or same_list(r, m) if isinstance(m, list) else
                      r is m, "%s: %s", what, short(r))
            check(acc() is c, "%s: the record now holds another list", what)
            verify(item, c, model, what)
            changed += len(before) != len(model)
            continue
        if op[0] == "fail":
            vals = [mat(x) for x in op[2]]
            some = True
            for x in vals:
                try:
                    co(x)
                except Bad:
                    some = False

            def fail():
                if op[1] == "extend":
                    acc().extend(failing(vals))
                elif op[1] == "setslice":
                    acc()[op[3]:op[4]] = failing(vals)
                else:
                    cls(values=failing(vals))
            if op[1] == "new" and variant[0] == "j":
                continue
            r = attempt(fail)
            check(isinstance(r, Raised), "%s: accepted a failing iterable",
                  what)
            if some:
                check(type(r.exc) is Oops, "%s: %r", what, r)
            verify(item, c, model, what)
            rejected += bool(before)
            continue
        if op[0] in ("append", "in", "count", "remove", "index"):
            v = mat(op[1])
        elif op[0] in ("insert", "set"):
            v = mat(op[2])
        if op[0] in ("append", "insert", "set", "in"):
            try:
                cv = co(v)
            except Bad:
                bad = True
                cv = None
        if op[0] in ("extend", "add", "iadd", "eq", "new", "setslice"):
            raw = op[1] if op[0] != "setslice" else op[4]
            how = op[-1]
            vals = [mat(x) for x in raw]
            cvals = []
            for x in vals:
                try:
                    cvals.append(co(x))
                except Bad:
                    bad = True
            arg = vals
            if not bad and how == "coll":
                arg = cm.new("l", item, variant, cvals)[0]
            else:
                arg = feed(how, cls, vals)
            # objects of the item type are stored as they are, others anew
            same = [x for x in vals if cm.of_type(item, x)]
        name = op[0]
        if name == "append":
            r = attempt(lambda: acc().append(v))
            m = attempt(lambda: model.append(cv)) if not bad else None
        elif name == "insert":
            r = attempt(lambda: acc().insert(op[1], v))
            m = attempt(lambda: model.insert(op[1], cv)) if not bad else None
        elif name == "set":
            def setm():
                model[op[1]] = cv

            def setc():
                acc()[op[1]] = v
            r = attempt(setc)
            m = attempt(setm) if not bad else None
        elif name == "extend":
            r = attempt(lambda: acc().extend(arg))
            m = attempt(lambda: model.extend(cvals)) if not bad else None
        elif name == "setslice":
            sl = slice(*op[1:4])

            def ssm():
                model[sl] = cvals

            def ssc():
                acc()[sl] = arg
            r = attempt(ssc)
            m = attempt(ssm) if not bad else None
        elif name == "pop":
            r, m = attempt(lambda: acc().pop()), attempt(model.pop)
        elif name == "popi":
            r = attempt(lambda: acc().pop(op[1]))
            m = attempt(lambda: model.pop(op[1]))
        elif name == "get":
            r = attempt(lambda: acc()[op[1]])
            m = attempt(lambda: model[op[1]])
        elif name == "slice":
            sl = slice(*op[1:4])
            r = attempt(lambda: list(acc()[sl]))
            m = attempt(lambda: model[sl])
        elif name == "del":
            def dc():
                del acc()[op[1]]

            def dm():
                del model[op[1]]
            r, m = attempt(dc), attempt(dm)
        elif name == "delslice":
            sl = slice(*op[1:4])

            def dsc():
                del acc()[sl]

            def dsm():
                del model[sl]
            r, m = attempt(dsc), attempt(dsm)
        elif name in ("remove", "count", "index"):
            rest = op[2:]
            r = attempt(lambda: getattr(acc(), name)(v, *rest))
            m = attempt(lambda: getattr(model, name)(v, *rest))
        elif name == "reverse":
            r, m = attempt(lambda: acc().reverse()), model.reverse()
        elif name == "sort":
            if item == "kid":
                kw = {"key": (lambda k: k.n), "reverse": op[2]}
            elif item == "any":
                kw = {"key": repr, "reverse": op[2]}
            elif op[1] == "neg" and item in ("str",):
                kw = {"reverse": op[2]}
            elif op[1]:
                kw = {"key": KEYS[op[1]], "reverse": op[2]}
            else:
                kw = {"reverse": op[2]} if op[2] else {}
            r = attempt(lambda: acc().sort(**kw))
            m = attempt(lambda: model.sort(**kw))
        elif name == "in":
            r = attempt(lambda: v in acc())
            if bad:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "%s: %s", what, short(r))
                verify(item, acc(), model, what)
                continue
            m = cv in model
        elif name == "eq":
            if how == "other" and item != "any":
                check((acc() == arg) is False and (acc() != arg) is True,
                      "%s: equal to a collection of another item type", what)
            if bad or how not in ("list", "coll"):
                continue
            other = arg
            r, m = (acc() == other), (model == cvals)
            check((acc() != other) is not m, "%s: != gives %s", what, m)
        elif name == "new":
            r = attempt(lambda: cls(values=arg if "json" not in variant and
                                    "j" != variant[0] else list(arg)))
            if bad:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "%s: %s", what, short(r))
                continue
            check(not isinstance(r, Raised), "%s: %r", what, r)
            verify(item, r, cvals, what)
            verify(item, acc(), model, what)
            continue
        elif name in ("add", "iadd"):
            if how not in ("list", "coll") and (
                    how != "other" or variant[0] == "j"):
                continue
            if variant[0] == "j" and bad and {"zz": 1} in vals:
                # JSON lists take a plain list as JSON: unknown keys are fine
                continue
            old = acc()
            r = attempt(lambda: acc() + arg)
            if bad:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "%s: %s", what, short(r))
                rejected += bool(model)
            else:
                check(not isinstance(r, Raised), "%s: %r", what, r)
                check(type(r) is cls, "%s: a %s", what, type(r).__name__)
                verify(item, r, model + cvals, what)
                check(r is not old, "%s: same object", what)
                # independent of the operands
                r.append(r[0]) if len(r) else None
            verify(item, old, model, what + " (left operand)")
            if not bad and how == "coll":
                verify(item, arg, cvals, what + " (right operand)")
            continue
        # compare outcome
        if bad:
            check(isinstance(r, Raised), "%s: accepted an item that cannot be "
                  "coerced", what)
            check(isinstance(r.exc, exc.CoercionError) and isinstance(
                r.exc, TypeError) or isinstance(
                    r.exc, (IndexError, ValueError)) and name in (
                        "set", "setslice"), "%s: %r", what, r)
            check(not isinstance(r.exc, IndexError) or
                  not -len(before) <= op[1] < len(before),
                  "%s: %r", what, r)
            rejected += bool(before)
            model = before
        elif isinstance(m, Raised):
            check(isinstance(r, Raised), "%s: %s, but a list %r", what,
                  short(r), m)
            check(isinstance(r.exc, type(m.exc)), "%s: %r, but a list %r",
                  what, r, m)
            rejected += bool(before)
        else:
            check(not isinstance(r, Raised), "%s: %r, but a list gives %s",
                  what, r, short(m))
            if isinstance(m, list):
                check(same_list(r, m), "%s: %s, expected %s", what, short(r),
                      short(m))
            else:
                check(r is m or equal_value(r, m), "%s: %s, expected %s",
                      what, short(r), short(m))
        check(acc() is c, "%s: the record now holds another list", what)
        verify(item, c, model, what)
        if before and len(before) != len(model) or any(
                x is not y for x, y in zip(before, model)):
            changed += 1
    check(list(reversed(c)) == model[::-1], "reversed()")
    it = list(c.itertuples())
    check(len(it) == len(model) and all(
        k == i and v is c[i] for i, (k, v) in enumerate(it)),
        "itertuples: %s", short(it))
    if variant == "extra":
        check(c.page == 3 and c.note == [1],
              "extra attributes changed: %s", short(c))
    ctx.hit(changed >= 2 or rejected)
    ctx.event("%s changed %d rejected %d" % (
        variant, min(changed, 3), min(rejected, 2)))


# -- construction from other containers -----------------------------------------
@st.composite
def sources(draw):
    item = draw(st.sampled_from(cm.LIST_ITEMS))
    variant = draw(st.sampled_from(["gen", "sub", "slot", "extra"]))
    vals = draw(lists(cm.item_values(item), 5))
    return (item, variant, vals, draw(st.sampled_from(
        HOWS + ["none", "str", "int", "dict", "property", "set"])))


def construct(case, ctx):
    item, variant, raw, how = case
    cls = cm.coll_class("l", item, variant)
    vals = [mat(v) for v in raw]
    want, bad = [], False
    for v in vals:
        try:
            want.append(cm.coerce_item(item, v))
        except Bad:
            bad = True
    if how == "none":
        for c in (cls(), cls(None), cls([]), cls(values=())):
            verify(item, c, [], "empty construction")
        check(cls()._values is not cls()._values
              if hasattr(cls(), "_values") else True, "shared")
        a, b = cls(), cls()
        if want:
            a.append(want[0])
            verify(item, b, [], "another empty list")
        return
    if how in ("str", "int"):
        r = attempt(lambda: cls("ab" if how == "str" else 5))
        check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
              "%s from %s: %s", cls.__name__, how, short(r))
        return
    if how == "dict":
        # in order of the keys: of text, or of numbers
        keys = ["k%03d" % i for i in range(len(vals))] if (
            len(vals) % 2) else [7 * i - 9 for i in range(len(vals))]
        arg = dict(reversed(list(zip(keys, vals))))
    elif how == "coll":
        if bad:
            return
        arg = cm.new("l", item, "sub", want)[0]
    elif how == "set":
        if bad or item in ("kid", "any"):
            return
        want = list(set(want))[:1]
        arg = set(want)
    else:
        arg = feed(how if how != "property" else "list", cls, vals)
    if how == "property":
        H = cm.holder("l", item, variant)
        r = attempt(lambda: H(items=arg))
        h = H()
        r2 = attempt(lambda: setattr(h, "items", arg))
        if bad:
            check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
                  "slot initialised with %s: %s", short(arg), short(r))
            check(isinstance(r2, Raised) and isinstance(r2.exc, TypeError),
                  "slot assigned %s: %s", short(arg), short(r2))
            check(not hasattr(h, "items"), "rejected assignment stored")
        else:
            check(not isinstance(r, Raised), "slot from %s: %r", short(arg),
                  r)
            check(not isinstance(r2, Raised), "slot from %s: %r", short(arg),
                  r2)
            verify(item, r.items, want, "initialised slot")
            verify(item, h.items, want, "assigned slot")
            arg.append(1)
            verify(item, h.items, want, "slot after changing the argument")
        ctx.hit(bool(vals))
        return
    r = attempt(lambda: cls(arg))
    if bad:
        check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
              "%s(%s): %s", cls.__name__, short(vals), short(r))
    else:
        check(not isinstance(r, Raised), "%s(%s): %r", cls.__name__,
              short(vals), r)
        verify(item, r, want, "%s from %s" % (cls.__name__, how))
        if how == "list" or how == "coll":
            arg.append(want[0] if want else cm.coerce_item(
                item, {"kid": {"n": 1}, "str": "s", "tuple": ()}.get(item, 4)))
            verify(item, r, want, "after changing the source")
    ctx.hit(len(vals) > 1)


PARTS = [
    Part("history", histories, run, quick=4000),
    Part("construct", sources, construct, quick=1200),
]
