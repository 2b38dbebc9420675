"""C12: field selectors read, write, create and delete exactly the location
they name."""
from hypothesis import strategies as st

from lib import treemodel as tm
from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, must_raise, raised, same,
    short,
)
from lib.schema import build, dense, clone, lit_eq, schemas, values
from lib.treemodel import ANY, Misfit, Missing, draw_path, draw_value, spoil
from normalize.exc import FieldSelectorException
from normalize.selector import FieldSelector

PROPERTY = "C12"
RULE = (
    "A case is a tree of generated record types, typed lists and dicts and "
    "plain data, and either paths to read (existing, with negative indexes "
    "and wildcards, or broken at one place), or a history of put, post and "
    "delete operations, each drawn for the state its predecessors leave, "
    "compared with a model of the whole tree.  Non-trivial: a path of two or "
    "more elements.")


@st.composite
def roots(draw, **kw):
    if draw(st.integers(0, 2)) == 0:
        # many collections in collections
        kw = dict(dict(lo=4, kinds="slllldr"), **kw)
    s = draw(schemas(
        700, poly=draw(st.sampled_from([0, 0.3])), req=0,
        scalars=["int", "str", "float", "any", "any"], items=["int", "str"],
        **kw))
    t = ("r", 0)
    if draw(st.integers(0, 4)) == 0:
        t = (draw(st.sampled_from("ld")), t,
             draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    return s, t, draw(draw(st.sampled_from([values, values, dense]))(s, t))


# -- reading -----------------------------------------------------------------------
@st.composite
def reads(draw):
    s, t, v = draw(roots())
    out = []
    for _ in range(draw(st.integers(1, 4))):
        p, _t = draw_path(draw, s, t, v, wild=0.2)
        if draw(st.integers(0, 2)) == 0:
            p = spoil(draw, p)
        out.append(p)
    return (s, t, v, out)


def nav(obj, path):
    """the object at a path without wildcards"""
    for sel in path:
        if hasattr(obj, "__getitem__"):
            obj = obj[sel]
        else:
            obj = getattr(obj, sel)
    return obj


def matches(B, want, got, what):
    if want is None:
        check(got is None, "%s: %s instead of None", what, short(got))
    elif want[0] == "all":
        check(type(got) is list, "%s: %s is not a list", what, short(got))
        check(len(got) == len(want[1]), "%s: %d items, expected %d", what,
              len(got), len(want[1]))
        for w, g in zip(want[1], got):
            matches(B, w, g, what)
    else:
        lit = B.un(want[1], got)
        check(lit_eq(lit, want[2]), "%s gives %s, expected %s", what,
              short(lit), short(want[2]))


def reading(case, ctx):
    s, t, v, paths = case
    B = build(s)
    x = B.mk(t, v)
    todo = [list(p) for p in paths]
    # ... and all the locations there are
    for p, lt, lv in tm.locations(s, t, v):
        fs = FieldSelector(p)
        got = must_not_raise(lambda: fs.get(x), "%r.get" % fs)
        matches(B, ("one", lt, lv), got, "%r.get(%s)" % (fs, short(x)))
        check(got is nav(x, p), "%r.get() is not the object itself", fs)
        ctx.hit(len(p) > 1)
    for p in todo:
        fs = FieldSelector(p)
        what = "%r.get(%s)" % (fs, short(x))
        try:
            want = tm.get(s, t, v, p)
        except Missing:
            must_raise(FieldSelectorException, lambda: fs.get(x), what)
            r = must_not_raise(lambda: fs.get_or_none(x),
                               what.replace(".get", ".get_or_none"))
            check(r is None, "%s: get_or_none gives %s", what, short(r))
            ctx.event("missing")
        except Misfit:
            # (text, say, can be indexed)
            attempt(lambda: fs.get(x))
            ctx.event("misfit")
        else:
            got = must_not_raise(lambda: fs.get(x), what)
            matches(B, want, got, what)
            matches(B, want, fs.get_or_none(x), what)
            ctx.event("wildcard" if want[0] == "all" else "resolves")
        same(list(fs), p, "selector after get()")
        ctx.hit(len(p) > 1)
    check(lit_eq(B.un(t, x), v), "get() changed the tree to %s", short(x))


# -- writing -----------------------------------------------------------------------
BADVALUE = {"int": "no int", "float": {}, "bool": None, "str": None}


@st.composite
def histories(draw):
    s, t, v = draw(roots())
    state = v
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["put", "put", "post", "post", "post",
                                   "delete", "delete"]))
        wild = 0.15
        p, end = draw_path(draw, s, t, state, wild=wild,
                           absent={"put": 0.1, "post": 0.3,
                                   "delete": 0.0}[op])
        if draw(st.integers(0, 7)) == 0:
            p = spoil(draw, p)
        if not p:
            continue
        new = None
        if op != "delete":
            if p[-1] is None:
                items = draw(st.lists(values(s, end), max_size=3)) if \
                    end != ANY else [("A", 1), ("A", [2])]
                new = ("items", items)
            else:
                new = ("item", end, draw_value(draw, s, end))
        if new is not None and not suits(s, t, state, p, new):
            continue
        ops.append((op, p, new))
        try:
            state, _n = apply(s, t, state, op, p, new)
        except (Missing, Misfit):
            pass
    return (s, t, v, ops)


UNEVEN = [
    [("items", ("?", ("r", 1))), ("one", ("r", 1))],
    [("a", ("r", 2)), ("b", ("?", ("r", 2))), ("c", ("d", ("s", "int"),
                                                     "plain")),
     ("n", ("s", "int"))],
    [("a", ("s", "int")), ("b", ("r", 3)), ("c", ("l", ("s", "int"),
                                                  "plain"))],
    [("a", ("s", "str")), ("d", ("d", ("s", "str"), "sub"))],
]


@st.composite
def unevens(draw):
    """collections of some items which have, and some which have not, what a
    path names; and paths which go beyond the ends of lists"""
    recs = []
    for fields in UNEVEN:
        out = []
        for n, t in fields:
            if t[0] == "?":
                t = (draw(st.sampled_from("lld")), t[1],
                     draw(st.sampled_from(["plain", "json", "sub"])))
            out.append({"n": n, "t": t})
        recs.append({"json": draw(st.booleans()), "pk": [], "fields": out})
    s = {"recs": recs}

    def value(t, top=False):
        if t[0] == "s":
            return draw(st.integers(0, 3) if t[1] == "int" else
                        st.sampled_from(["", "x", "y"]))
        if t[0] == "r":
            return ("R", t[1], {
                f["n"]: value(f["t"]) for f in recs[t[1]]["fields"]
                if top or draw(st.booleans())})
        n = draw(st.integers(0, 2)) + 2 * (t[1] == ("r", 1))
        if t[0] == "l":
            return ("L", [value(t[1]) for _ in range(n)])
        return ("D", dict(zip("abcd", [value(t[1]) for _ in range(n)])))

    t = ("r", 0)
    v = state = value(t, True)
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        p, end = [], t
        while end[0] != "s" and (not p or draw(st.integers(0, 4))):
            if end[0] == "r":
                f = draw(st.sampled_from(recs[end[1]]["fields"]))
                p.append(f["n"])
                end = f["t"]
            else:
                p.append(None if draw(st.integers(0, 2)) else draw(
                    st.integers(-1, 5) if end[0] == "l" else
                    st.sampled_from("abcde")))
                end = end[1]
        op = draw(st.sampled_from(["put", "post", "delete", "delete"]))
        new = None
        if op != "delete":
            if p[-1] is None:
                new = ("items", [value(end) for _ in range(
                    draw(st.integers(0, 3)))])
            else:
                new = ("item", end, value(end))
            if not suits(s, t, state, p, new):
                continue
        ops.append((op, p, new))
        try:
            state, _n = apply(s, t, state, op, p, new)
        except (Missing, Misfit):
            pass
    return (s, t, v, ops)


def beyond(s, t, v, p):
    """does the path go beyond the end of an existing list, not at its
    end?"""
    for i, sel in enumerate(p[:-1]):
        if not isinstance(sel, int):
            continue
        try:
            got = tm.get(s, t, v, p[:i])
        except (Missing, Misfit):
            return False
        if got and got[0] == "one" and tm.kind_of(got[1], got[2]) == "list" \
                and sel > len(tm.contents(got[1], got[2])):
            return True
    return False


def suits(s, t, state, p, new):
    """would the drawn value(s) be of the right type there?"""
    if new[0] == "item":
        return fits(s, t, state, p, new[1])
    return items_fit(s, t, state, p, new)


def parent_is_dict(s, t, v, p):
    """the kinds of the collection(s) a final wildcard is about"""
    try:
        got = tm.get(s, t, v, p[:-1])
    except (Missing, Misfit):
        return None

    def kinds(g):
        if g is None:
            return set()
        if g[0] == "all":
            return set().union(*map(kinds, g[1])) if g[1] else set()
        return {tm.kind_of(g[1], g[2])}
    return kinds(got)


def fits(s, t, v, p, end):
    """is 'end' the type of what can be at the end of the path?"""
    try:
        if len(p) == 0:
            return False
        for i, sel in enumerate(p):
            if sel is None:
                kids = tm.all_items(t, v)
                it = tm.itemtype(t)
                if i == len(p) - 1:
                    return it == end
                if not kids:
                    return True
                return all(fits(s, it, k, p[i + 1:], end) for k in kids)
            ct = tm.child_type(s, t, v, sel)
            if i == len(p) - 1:
                return ct == end
            try:
                t, v = tm.child(s, t, v, sel)
            except Missing:
                t, v = ct, tm.empty(ct)
    except (Misfit, Missing):
        return False


def apply(s, t, v, op, p, new):
    """model: (new state, number of values)"""
    if op == "delete":
        return tm.delete(s, t, v, p), None
    if new[0] == "items":
        kinds = parent_is_dict(s, t, v, p)
        if kinds is None or len(kinds) > 1:
            raise Misfit
        items = new[1]
        if kinds == {"dict"}:
            items = {"k%d" % i: x for i, x in enumerate(items)}
    else:
        items = new[2]
    fn = tm.put if op == "put" else tm.post
    r = fn(s, t, v, p, items)
    return r if op == "post" else (r, None)


def writing(case, ctx):
    s, t, v, ops = case
    B = build(s)
    x = B.mk(t, v)
    state = v
    for op, p, new in ops:
        fs = FieldSelector(p)
        what = "%r.%s(%s, %s)" % (fs, op, short(x), short(new))
        if new is not None and not suits(s, t, state, p, new):
            ctx.event("unfit")
            break
        try:
            want, n = apply(s, t, state, op, p, new)
            fail = None
        except Missing:
            fail = FieldSelectorException
        except Misfit:
            fail = Exception
        if new is None:
            fn = lambda: fs.delete(x)           # noqa: E731
        else:
            if new[0] == "items":
                val = [B.mk(item_type(s, t, state, p, y), y)
                       for y in new[1]]
                if parent_is_dict(s, t, state, p) == {"dict"}:
                    val = {"k%d" % i: y for i, y in enumerate(val)}
            else:
                val = B.mk(new[1], new[2])
            fn = lambda: getattr(fs, op)(x, val)    # noqa: E731
        if fail:
            if op == "delete" and missing_end(s, t, state, p):
                # deleting an attribute which is not set may be no error
                attempt(fn)
            elif op == "post" and None not in p:
                must_raise(Exception, fn, what)
            else:
                must_raise(fail, fn, what)
            if op == "post" and None not in p and beyond(s, t, state, p):
                must_raise(ValueError, fn, what)
                check(lit_eq(B.un(t, x), state), "%s (out of order): tree is "
                      "now %s", what, short(x))
                ctx.event("post out of order")
                continue
            if op == "delete" and None in p and \
                    fail is FieldSelectorException:
                check(lit_eq(B.un(t, x), state), "failed %s: tree is now %s",
                      what, short(x))
                ctx.event("delete failed, wildcard")
                continue
            if None in p or op == "post" and fail:
                # (some items may have been done)
                ctx.event("%s failed, wildcard" % op)
                return
            check(lit_eq(B.un(t, x), state), "failed %s: tree is now %s",
                  what, short(x))
            ctx.event("%s failed" % op)
            continue
        r = must_not_raise(fn, what)
        got = B.un(t, x)
        check(lit_eq(got, want), "%s: tree is %s, expected %s", what,
              short(got, 600), short(want, 600))
        if op == "post":
            same(r, n, "number of values set by %s" % what)
        state = want
        if op != "delete" and p[-1] is not None and None not in p:
            back = must_not_raise(lambda: fs.get(x), "%r.get after %s" %
                                  (fs, op))
            check(lit_eq(B.un(new[1], back), new[2]),
                  "%s: get gives back %s", what, short(back))
        elif op == "delete" and p[-1] is not None and None not in p and \
                isinstance(p[-1], str):
            must_raise(FieldSelectorException, lambda: fs.get(x),
                       "%r.get after delete" % fs)
        same(list(fs), p, "selector after %s" % op)
        ctx.hit(len(p) > 1)
        ctx.event("%s%s" % (op, " wildcard" if None in p else ""))
        if None in p:
            # the items may now share the one value given
            x = B.mk(t, state)


def item_type(s, t, v, p, y):
    """item type of the collection(s) at the end of a path"""
    got = tm.get(s, t, v, p[:-1])
    while got[0] == "all":
        got = [g for g in got[1] if g is not None][0]
    return tm.itemtype(got[1])


def items_fit(s, t, v, p, new):
    try:
        got = tm.get(s, t, v, p[:-1])
    except (Missing, Misfit):
        return False

    def flat(g):
        if g is None:
            return [None]
        if g[0] == "all":
            return [y for x in g[1] for y in flat(x)]
        return [g[1] if tm.kind_of(g[1], g[2]) in ("list", "dict") else None]
    types = flat(got)
    return bool(types) and None not in types and \
        len(set(map(repr, types))) == 1 and all(
            conforms(s, tm.itemtype(types[0]), y) for y in new[1])


def conforms(s, t, y):
    """is y a literal of type t (roughly)?"""
    if t == ANY:
        return isinstance(y, tuple) and y[0] == "A"
    if t[0] == "s":
        return type(y) is {"int": int, "str": str, "float": float}[t[1]]
    return isinstance(y, tuple) and y[0] == t[0].upper() and (
        t[0] != "r" or y[1] == t[1])


def missing_end(s, t, v, p):
    """only the last element of the path does not resolve, in a record"""
    if not p or not isinstance(p[-1], str):
        return False
    try:
        tm.get(s, t, v, p[:-1])
    except (Missing, Misfit):
        return False
    return True


# -- broken in the middle ------------------------------------------------------------
@st.composite
def brokens(draw):
    s, t, v = draw(roots())
    return (s, t, v, draw(st.sampled_from([0, 1, 7])),
            draw(st.sampled_from(["nosuch", "zz"])))


def broken(case, ctx):
    """no operation gets past a missing attribute, index or key"""
    s, t, v, off, name = case
    B = build(s)
    x = B.mk(t, v)
    for p, lt, lv in list(tm.locations(s, t, v))[:60]:
        kind = tm.kind_of(lt, lv)
        if kind == "leaf":
            continue
        if kind in ("list", "dict"):
            # all items put where they are
            fs = FieldSelector(list(p) + [None])
            for op in (fs.put, fs.post):
                must_not_raise(lambda: op(x, FieldSelector(p).get(x)),
                               "%r: items put in place" % fs)
                check(lit_eq(B.un(t, x), v), "%r: items put in place: tree "
                      "is now %s", fs, short(x))
        if kind == "list":
            n = len(tm.contents(lt, lv))
            bad = [n + off, -n - 1 - off]
        else:
            bad = [name]
        for b in bad:
            for rest in ([0], ["a"], [None], [0, 0], ["a", "b"]):
                path = list(p) + [b] + rest
                fs = FieldSelector(path)
                ops = [("get", lambda: fs.get(x)),
                       ("delete", lambda: fs.delete(x))]
                if not (kind == "list" and b >= 0 and off == 0):
                    ops.append(("put", lambda: fs.put(x, "new")))
                if kind not in ("list", "dict"):
                    ops.append(("post", lambda: fs.post(x, "new")))
                for op, fn in ops:
                    must_raise(FieldSelectorException, fn, "%r.%s(%s)" % (
                        fs, op, short(x)))
                check(lit_eq(B.un(t, x), v), "failed operations with %r: "
                      "tree is now %s", fs, short(x))
                ctx.hit(len(path) > 2)
        ctx.event("%s at depth %d" % (kind, len(p)))


PARTS = [
    Part("reading", reads, reading, quick=1500),
    Part("writing", histories, writing, quick=3000),
    Part("uneven", unevens, writing, quick=2500),
    Part("broken", brokens, broken, quick=400),
]
