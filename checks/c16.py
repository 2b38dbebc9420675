"""C16: collection diffs account for every item exactly once."""
import collections

from hypothesis import strategies as st

from normalize.diff import diff_iter

from lib.diffmodel import agree, reports
from lib.harness import Part, check, must_not_raise, same, short
from lib.schema import build, lit_eq

PROPERTY = "C16"
RULE = (
    "A case is two collections (typed list or dict, of simple values, of "
    "records with or without a key, or of collections; or a plain list or "
    "dict in an untyped attribute), the second one derived from the first by "
    "edits of items, additions, removals, repetitions and moves, compared by "
    "themselves or inside a record, with options.  Non-trivial: both have at "
    "least two items and differ.")

VAR = {"rec": ["plain", "json", "sub", "jsub"],
       "simple": ["plain", "json", "sub", "jsub"]}
INT = st.integers(0, 4)
STR = st.sampled_from(["", "a", "b", "a ", " a", "A", "ab"])
PLAIN = st.one_of(INT, STR, st.none(), st.booleans(), st.sampled_from(
    [[1], [1, 2], {"a": 1}, {"a": [1]}, 1.0, 2.5, []]))
KEYS = st.sampled_from(["a", "b", "c", "d", "e"])


def options(draw, *names):
    o = {n: draw(st.booleans()) for n in ("unchanged", "moved")}
    o["fuzzy_match"] = draw(st.booleans())
    if draw(st.integers(0, 4)) == 0:
        o["recurse"] = True
    for n in names:
        if draw(st.integers(0, 3)) == 0:
            o[n] = True
    if draw(st.booleans()):
        o["ignore_ws"] = False
    return o


def edit_list(draw, items, new, edit, n):
    items = list(items)
    for _ in range(n):
        how = draw(st.sampled_from(
            ["edit", "edit", "add", "del", "move", "dup", "swap", "rot"]))
        m = len(items)
        if not m or how == "add":
            items.insert(draw(st.integers(0, m)), draw(new))
            continue
        i = draw(st.integers(0, m - 1))
        j = draw(st.integers(0, m - 1))
        if how == "edit":
            items[i] = edit(draw, items[i])
        elif how == "del":
            del items[i]
        elif how == "move":
            items.insert(j, items.pop(i))
        elif how == "dup":
            items.insert(j, items[i])
        elif how == "swap":
            items[i], items[j] = items[j], items[i]
        else:
            items = items[i:] + items[:i]
    return items


def edit_dict(draw, items, new, edit, n):
    items = dict(items)
    for _ in range(n):
        how = draw(st.sampled_from(
            ["edit", "edit", "add", "del", "move", "dup", "swap"]))
        if not items or how == "add":
            items[draw(KEYS)] = draw(new)
            continue
        k = draw(st.sampled_from(list(items)))
        k2 = draw(KEYS)
        if how == "edit":
            items[k] = edit(draw, items[k])
        elif how == "del":
            del items[k]
        elif how == "move":
            items[k2] = items.pop(k)
        elif how == "dup":
            items[k2] = items[k]
        elif k2 in items:
            items[k], items[k2] = items[k2], items[k]
    return items


def two(draw, kind, new, edit, maxlen=5):
    """two collections, the second an edit of the first"""
    n = draw(st.integers(0, 4))
    if kind == "l":
        a = draw(st.lists(new, max_size=maxlen)
                 if draw(st.integers(0, 11)) else
                 st.lists(new, min_size=9, max_size=14))
        b = edit_list(draw, a, new, edit, n)
    else:
        a = draw(st.dictionaries(KEYS, new, max_size=maxlen))
        b = edit_dict(draw, a, new, edit, n)
    if draw(st.integers(0, 9)) == 0:
        b = draw(st.lists(new, max_size=maxlen) if kind == "l" else
                 st.dictionaries(KEYS, new, max_size=maxlen))
    return a, b


def wrap(draw, s, t, a, b):
    """alone, or in an attribute of record 0"""
    tag = t[0].upper()
    alone = t[0] in "ld" and draw(st.booleans())
    lits = (tag, a), (tag, b)
    if t[0] == "s":
        lits = ("A", a), ("A", b)
    s["recs"][0] = {"json": draw(st.booleans()), "pk": [], "fields": [
        {"n": "items", "t": t}]}
    if alone:
        return (s, t, (), lits[0], lits[1])
    return (s, ("r", 0), ("items",), ("R", 0, {"items": lits[0]}),
            ("R", 0, {"items": lits[1]}))


# -- simple values -----------------------------------------------------------
@st.composite
def simples(draw):
    kind = draw(st.sampled_from("lld"))
    which = draw(st.sampled_from(["int", "str", "str", "any"]))
    new = {"int": INT, "str": STR, "any": PLAIN}[which]
    a, b = two(draw, kind, new, lambda draw, x: draw(new), 6)
    t = ("s", "any") if which == "any" else (
        kind, ("s", which), draw(st.sampled_from(VAR["simple"])))
    return wrap(draw, {"recs": [None]}, t, a, b) + (
        options(draw, "ignore_case", "ignore_empty_slots"),)


# -- records -----------------------------------------------------------------
@st.composite
def item_types(draw, keyed):
    """fields of record 1 (and 2, nested in it)"""
    names = ["id", "n", "s", "t", "sub", "l"]
    types = {"id": ("s", "int"), "n": ("s", "int"), "s": ("s", "str"),
             "t": ("s", "str"), "sub": ("r", 2),
             "l": ("l", ("s", "int"), "plain")}
    got = [x for x in names if draw(st.booleans())] or ["n", "s"]
    pk = []
    if keyed:
        if "id" not in got:
            got.append("id")
        pk = ["id"]
        if draw(st.integers(0, 2)) == 0:
            pk = ["id", "s"]
            if "s" not in got:
                got.append("s")
    fields = [{"n": x, "t": types[x]} for x in got]
    for f in fields:
        if f["n"] not in pk and draw(st.integers(0, 7)) == 0:
            f["x"] = True
    json = draw(st.booleans())
    recs = [
        {"json": json, "pk": pk, "fields": fields},
        {"json": json, "pk": [], "fields": [
            {"n": "a", "t": ("s", "int")}, {"n": "b", "t": ("s", "str")}]}]
    if draw(st.integers(0, 3)) == 0:
        # a type derived from that of the items (of the same key or an own)
        more = [{"n": "y", "t": ("s", "str")}, {"n": "z", "t": ("s", "int")}]
        more = more[:draw(st.integers(0, 2))]
        recs.append({"json": json, "base": 1, "fields": fields + more,
                     "pk": ["y"] if more and draw(st.booleans()) else []})
    return recs


def item_values(recs, k=1):
    def field(t):
        if t[0] == "s":
            return INT if t[1] == "int" else STR
        if t[0] == "l":
            return st.lists(INT, max_size=2).map(lambda x: ("L", x))
        return item_values(recs, 2)

    @st.composite
    def go(draw):
        out = {}
        r = 3 if k == 1 and len(recs) > 2 and draw(st.booleans()) else k
        for f in recs[r - 1]["fields"]:
            if draw(st.integers(0, 5)):
                out[f["n"]] = draw(field(f["t"]))
        return ("R", r, out)
    return go()


def edit_item(recs):
    def edit(draw, v):
        new = draw(item_values(recs))
        rec = recs[new[1] - 1]
        fields = [f["n"] for f in rec["fields"] if f["n"] not in rec["pk"]]
        if not fields or draw(st.integers(0, 5)) == 0:
            fields = [f["n"] for f in rec["fields"]]
        n = draw(st.sampled_from(fields))
        # (perhaps of another type, with the same values)
        d = {f["n"]: v[2][f["n"]] for f in rec["fields"] if f["n"] in v[2]}
        d.pop(n, None)
        if n in new[2]:
            d[n] = new[2][n]
        return ("R", new[1], d)
    return edit


@st.composite
def records(draw, keyed=None):
    if keyed is None:
        keyed = draw(st.booleans())
    recs = draw(item_types(keyed))
    kind = draw(st.sampled_from("lld"))
    a, b = two(draw, kind, item_values(recs), edit_item(recs))
    t = (kind, ("r", 1), draw(st.sampled_from(VAR["rec"])))
    return wrap(draw, {"recs": [None] + recs}, t, a, b) + (options(
        draw, "ignore_case", "ignore_empty_slots", "ignore_empty_items",
        "extraneous"),)


@st.composite
def likes(draw):
    """items which only differ more or less, of types with more or fewer
    attributes"""
    n = draw(st.integers(2, 5))
    fields = [{"n": x, "t": ("s", "int")} for x in "abcde"[:n]]
    recs = [None, {"json": False, "pk": [], "fields": fields}]
    for more in draw(st.lists(st.integers(0, 3), max_size=2)):
        recs.append({"json": False, "pk": [], "base": 1, "fields": fields + [
            {"n": x, "t": ("s", "int")} for x in "uvw"[:more]]})

    @st.composite
    def item(draw):
        k = draw(st.integers(1, len(recs) - 1))
        return ("R", k, {f["n"]: draw(st.sampled_from([0, 1, 1, 2, 2]))
                         for f in recs[k]["fields"] if draw(
                             st.integers(0, 5))})

    def edit(draw, v):
        d = dict(v[2])
        for f in recs[v[1]]["fields"]:
            if draw(st.integers(0, 3)) == 0:
                d[f["n"]] = draw(st.integers(1, 3))
        return ("R", v[1], d)
    kind = draw(st.sampled_from("lld"))
    if draw(st.booleans()):
        a, b = [draw(st.lists(item(), min_size=1, max_size=4)) for _ in "ab"]
        if kind == "d":
            a, b = dict(zip("abcd", a)), dict(zip(draw(st.permutations(
                "abcdef")), b))
    else:
        a, b = two(draw, kind, item(), edit)
    return wrap(draw, {"recs": recs}, (kind, ("r", 1), draw(
        st.sampled_from(["plain", "sub"]))), a, b) + (
            dict(options(draw), fuzzy_match=True),)


@st.composite
def nested(draw):
    """collections of collections"""
    kind = draw(st.sampled_from("ld"))
    inner = draw(st.sampled_from("ld"))
    deep = draw(st.integers(0, 2)) == 0
    recs = draw(item_types(draw(st.booleans())))
    new = item_values(recs) if deep else INT
    if inner == "l":
        coll = st.lists(new, max_size=3).map(lambda x: ("L", x))
    else:
        coll = st.dictionaries(KEYS, new, max_size=3).map(lambda x: ("D", x))

    def edit(draw, v):
        fn = edit_list if inner == "l" else edit_dict
        return (v[0], fn(draw, v[1], new, edit_item(recs) if deep else
                         (lambda draw, x: draw(new)), 1))
    a, b = two(draw, kind, coll, edit, 4)
    t = (kind, (inner, ("r", 1) if deep else ("s", "int"), draw(
        st.sampled_from(["sub", "jsub"]))), draw(
            st.sampled_from(["sub", "jsub"])))
    return wrap(draw, {"recs": [None] + recs}, t, a, b) + (options(draw),)


# -- the check ---------------------------------------------------------------
def coll_of(v, path):
    if path:
        v = v[2]["items"]
    return v[1]


def keys_of(c):
    return list(range(len(c))) if isinstance(c, list) else list(c)


def accounting(got, path, ca, cb, opts, what):
    """every key of either side exactly once (in reports which include the
    unchanged ones)"""
    ka, kb = keys_of(ca), keys_of(cb)
    n = len(path)
    there = [x for x in got if x[1][:n] == path and x[2][:n] == path]
    same(len(there), len(got), "%s: reports under %r" % (what, path))
    partner = collections.defaultdict(set), collections.defaultdict(set)
    gone = collections.Counter(), collections.Counter()
    for kind, base, other in got:
        if len(base) > n and len(other) > n:
            if kind == "MODIFIED" and len(base) == n + 1:
                # (items of different types may be matched, too)
                check(base == other or ca[base[n]][:2] != cb[other[n]][:2] and
                      ca[base[n]][0] == "R",
                      "%s: modified %r and %r", what, base, other)
            partner[0][base[n]].add(other[n])
            partner[1][other[n]].add(base[n])
        elif len(base) == n + 1:
            check(kind == "REMOVED", "%s: %s %r %r", what, kind, base, other)
            gone[0][base[n]] += 1
        elif len(other) == n + 1:
            check(kind == "ADDED", "%s: %s %r %r", what, kind, base, other)
            gone[1][other[n]] += 1
        else:
            check(False, "%s: %s %r %r", what, kind, base, other)
    for i, keys in ((0, ka), (1, kb)):
        side = ["base", "other"][i]
        for k in keys:
            times = gone[i][k] + len(partner[i][k])
            check(times == 1, "%s: item %r of the %s side is accounted for "
                  "%d times (%s; matched with %s)", what, k, side, times,
                  "on one side only" if gone[i][k] else "", short(
                      sorted(partner[i][k], key=repr)))
        extra = set(gone[i]) | set(partner[i])
        check(extra <= set(keys), "%s: reports about %s, which is not in "
              "the %s side", what, extra - set(keys), side)


def run(case, ctx):
    s, t, path, va, vb, opts = case
    B = build(s)
    a, b = B.mk(t, va), B.mk(t, vb)
    what = "diff of %s with %s (%s)" % (short(a), short(b), opts)
    got = must_not_raise(lambda: reports(diff_iter(a, b, **opts)), what)
    full = must_not_raise(lambda: reports(diff_iter(
        a, b, **dict(opts, unchanged=True))), what)
    agree(s, t, va, vb, dict(opts, unchanged=True), full, what +
          " with unchanged=True")
    if not opts.get("unchanged"):
        want = sorted(repr(x) for x in full if x[0] != "NO_CHANGE")
        check(sorted(map(repr, got)) == want, "%s: %s without the unchanged "
              "option, %s with it", what, short(got), short(full))
    if not opts.get("moved"):
        check(not any(x[0] == "MOVED" for x in full), "%s: moved items "
              "reported", what)
    ca, cb = coll_of(va, path), coll_of(vb, path)
    if not (opts.get("recurse") or opts.get("ignore_empty_items") or
            opts.get("ignore_empty_slots")):
        accounting(full, path, ca, cb, opts, what)
    check(lit_eq(B.un(t, a), va) and lit_eq(B.un(t, b), vb),
          "%s: changed by it", what)
    ctx.hit(len(ca) > 1 and len(cb) > 1 and va != vb)
    ctx.event("%d/%d" % (len(ca), len(cb)))


# -- precise expectation for unique keys ---------------------------------------
@st.composite
def edits(draw):
    n = draw(st.integers(0, 6))
    kind = draw(st.sampled_from("ld"))
    opts = options(draw)
    opts.pop("recurse", None)
    a = [(i, draw(STR), draw(INT)) for i in draw(st.permutations(range(n)))]
    b = []
    for i, name, num in a:
        how = draw(st.sampled_from(["keep", "keep", "name", "num", "both",
                                    "del"]))
        if how != "del":
            b.append((i, draw(STR) if how in ("name", "both") else name,
                      draw(INT) if how in ("num", "both") else num))
    for i in range(draw(st.integers(0, 3))):
        b.insert(draw(st.integers(0, len(b))), (
            10 + i, draw(STR), draw(INT)))
    if draw(st.booleans()):
        b = list(draw(st.permutations(b)))
    ka, kb = ([draw(st.permutations("abcdefghijklm")) for _ in "ab"] if
              kind == "d" else (None, None))
    return (kind, draw(st.sampled_from(VAR["rec"])), a, b,
            ka and list(ka[:len(a)]), kb and list(kb[:len(b)]), opts)


def keyed(case, ctx):
    """items with a single unique key: the reports follow from the keys"""
    kind, var, a, b, ka, kb, opts = case
    s = {"recs": [{"json": False, "pk": [], "fields": [
        {"n": "x", "t": ("s", "int")}]}, {"json": True, "pk": ["key"],
                                          "fields": [
        {"n": "key", "t": ("s", "int")}, {"n": "name", "t": ("s", "str")},
        {"n": "num", "t": ("s", "int")}]}]}
    t = (kind, ("r", 1), var)
    ka, kb = ka or list(range(len(a))), kb or list(range(len(b)))
    B = build(s)

    def mk(items, keys):
        lits = [("R", 1, dict(zip(("key", "name", "num"), x))) for x in items]
        return B.mk(t, ("L", lits) if kind == "l" else (
            "D", dict(zip(keys, lits))))
    x, y = mk(a, ka), mk(b, kb)
    what = "diff of %s with %s (%s)" % (short(x), short(y), opts)
    got = must_not_raise(lambda: reports(diff_iter(x, y, **opts)), what)
    where_a = {i[0]: (k, i) for k, i in zip(ka, a)}
    where_b = {i[0]: (k, i) for k, i in zip(kb, b)}
    want = []

    def clean(v):
        return " ".join(v.split()) if isinstance(v, str) and opts.get(
            "ignore_ws", True) else v
    for key in set(where_a) | set(where_b):
        if key not in where_b:
            want.append(("REMOVED", (where_a[key][0],), ()))
            continue
        if key not in where_a:
            want.append(("ADDED", (), (where_b[key][0],)))
            continue
        (p, u), (q, w) = where_a[key], where_b[key]
        for i, n in enumerate(("key", "name", "num")):
            if clean(u[i]) != clean(w[i]):
                want.append(("MODIFIED", (p, n), (q, n)))
            elif opts.get("unchanged"):
                want.append(("NO_CHANGE", (p, n), (q, n)))
        if opts.get("moved") and p != q:
            want.append(("MOVED", (p,), (q,)))
        elif opts.get("unchanged"):
            want.append(("NO_CHANGE", (p,), (q,)))
    check(sorted(map(repr, got)) == sorted(map(repr, want)),
          "%s: reported %s, expected %s", what, short(
              sorted(set(got) - set(want), key=repr), 600),
          short(sorted(set(want) - set(got), key=repr), 600))
    ctx.hit(len(a) > 1 and a != b)
    ctx.event("%d items" % len(a))


PARTS = [
    Part("simple", simples, run, quick=2500),
    Part("records", records, run, quick=3500),
    Part("similar", likes, run, quick=2000),
    Part("nested", nested, run, quick=1000),
    Part("keyed", edits, keyed, quick=1500),
]
