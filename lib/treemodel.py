"""Reference model of locations in trees of literals (see lib.schema)."""
from hypothesis import strategies as st

from lib.schema import KEYS, NAMES, clone, json_any, values


class Missing(Exception):
    """the path does not resolve"""


class Misfit(Exception):
    """the path does not fit the kind of thing found (an index in a record,
    a name in a list, ...), or the value does not"""


def field_of(s, t, v, name):
    for f in s["recs"][v[1]]["fields"]:
        if f["n"] == name:
            return f
    return None


def kind_of(t, v):
    """record | list | dict | leaf"""
    if t[0] == "r":
        return "record"
    if t[0] == "l":
        return "list"
    if t[0] == "d":
        return "dict"
    if t[1] == "any":
        if isinstance(v[1], list):
            return "list"
        if isinstance(v[1], dict):
            return "dict"
    return "leaf"


ANY = ("s", "any")


def contents(t, v):
    """the list or dict of child literals of a collection"""
    if t == ANY:
        return [("A", x) for x in v[1]] if isinstance(v[1], list) else {
            k: ("A", x) for k, x in v[1].items()}
    return v[1]


def rebuild(t, v, items):
    if t == ANY:
        return ("A", [x[1] for x in items] if isinstance(items, list) else {
            k: x[1] for k, x in items.items()})
    return (v[0], items)


def itemtype(t):
    return t if t == ANY else t[1]


def child(s, t, v, sel):
    """(type, literal) of what one selector element leads to"""
    kind = kind_of(t, v)
    if kind == "record":
        if not isinstance(sel, str):
            raise Misfit
        f = field_of(s, t, v, sel)
        if f is None or sel not in v[2]:
            raise Missing
        return f["t"], v[2][sel]
    if kind == "list":
        if not isinstance(sel, int):
            raise Misfit
        items = contents(t, v)
        if not -len(items) <= sel < len(items):
            raise Missing
        return itemtype(t), items[sel]
    if kind == "dict":
        items = contents(t, v)
        if sel not in items:
            raise Missing
        return itemtype(t), items[sel]
    if not isinstance(sel, str):
        raise Misfit
    raise Missing


def all_items(t, v):
    kind = kind_of(t, v)
    if kind not in ("list", "dict"):
        raise Misfit
    items = contents(t, v)
    return list(items) if kind == "list" else list(items.values())


def get(s, t, v, path):
    """tree of ('one', type, literal) / ('all', [...]) / None"""
    for i, sel in enumerate(path):
        if sel is None:
            out, failed = [], []
            for x in all_items(t, v):
                try:
                    out.append(get(s, itemtype(t), x, path[i + 1:]))
                except Missing:
                    out.append(None)
                    failed.append(x)
            if failed and len(failed) == len(out):
                raise Missing
            return ("all", out)
        t, v = child(s, t, v, sel)
    return ("one", t, v)


def replace(s, t, v, sel, new):
    """v with the child at sel (there, or to be added) replaced"""
    kind = kind_of(t, v)
    if kind == "record":
        if not isinstance(sel, str):
            raise Misfit
        if field_of(s, t, v, sel) is None:
            raise Missing
        d = dict(v[2])
        d[sel] = new
        return v[:2] + (d,) + v[3:]
    if kind not in ("list", "dict"):
        raise Misfit
    items = contents(t, v)
    if kind == "list":
        if not isinstance(sel, int):
            raise Misfit
        items = list(items)
        if sel == len(items):
            items.append(new)
        elif not -len(items) <= sel < len(items):
            raise Missing
        else:
            items[sel] = new
    else:
        items = dict(items)
        items[sel] = new
    return rebuild(t, v, items)


def put(s, t, v, path, new):
    sel = path[0]
    kind = kind_of(t, v)
    if len(path) == 1:
        if sel is None:
            if kind not in ("list", "dict"):
                raise Misfit
            return rebuild(t, v, new)
        if kind == "list" and isinstance(sel, int) and sel >= len(
                contents(t, v)):
            raise Missing
        return replace(s, t, v, sel, new)
    if sel is None:
        items = contents(t, v) if kind in ("list", "dict") else None
        if items is None:
            raise Misfit
        if kind == "list":
            return rebuild(t, v, [put(s, itemtype(t), x, path[1:], new)
                                  for x in items])
        return rebuild(t, v, {k: put(s, itemtype(t), x, path[1:], new)
                              for k, x in items.items()})
    ct, cv = child(s, t, v, sel)
    return replace(s, t, v, sel, put(s, ct, cv, path[1:], new))


def empty(t):
    if t[0] == "r":
        return ("R", t[1], {})
    if t[0] == "l":
        return ("L", [])
    if t[0] == "d":
        return ("D", {})
    raise Misfit


def child_type(s, t, v, sel):
    if t[0] == "r":
        f = field_of(s, t, v, sel)
        if f is None:
            raise Misfit
        return f["t"]
    if kind_of(t, v) in ("list", "dict"):
        return itemtype(t)
    raise Misfit


def post(s, t, v, path, new):
    """(literal, number of values set)"""
    sel = path[0]
    kind = kind_of(t, v)
    if len(path) == 1:
        if sel is None:
            if kind not in ("list", "dict"):
                raise Misfit
            return rebuild(t, v, new), 1
        return replace(s, t, v, sel, new), 1
    if sel is None:
        if kind not in ("list", "dict"):
            raise Misfit
        items = contents(t, v)
        n = 0
        if kind == "list":
            out = []
            for x in items:
                x, k = post(s, itemtype(t), x, path[1:], new)
                out.append(x)
                n += k
        else:
            out = {}
            for key, x in items.items():
                out[key], k = post(s, itemtype(t), x, path[1:], new)
                n += k
        return rebuild(t, v, out), n
    try:
        ct, cv = child(s, t, v, sel)
    except Missing:
        if t == ANY:
            raise Misfit
        if kind == "list" and sel != len(contents(t, v)):
            raise Misfit
        ct = child_type(s, t, v, sel)
        cv = empty(ct)
    cv, n = post(s, ct, cv, path[1:], new)
    return replace(s, t, v, sel, cv), n


def delete(s, t, v, path):
    sel = path[0]
    kind = kind_of(t, v)
    if len(path) == 1:
        if sel is None:
            if kind not in ("list", "dict"):
                raise Misfit
            return rebuild(t, v, [] if kind == "list" else {})
        child(s, t, v, sel)
        if kind == "record":
            if field_of(s, t, v, sel).get("req"):
                raise Misfit
            return v[:2] + ({k: x for k, x in v[2].items() if k != sel},) + \
                v[3:]
        items = contents(t, v)
        if kind == "list":
            items = list(items)
            del items[sel]
        else:
            items = {k: x for k, x in items.items() if k != sel}
        return rebuild(t, v, items)
    if sel is None:
        if kind not in ("list", "dict"):
            raise Misfit
        items = contents(t, v)
        keys = range(len(items)) if kind == "list" else list(items)
        out = list(items) if kind == "list" else dict(items)
        bad = 0
        for k in keys:
            try:
                out[k] = delete(s, itemtype(t), items[k], path[1:])
            except Missing:
                bad += 1
        if bad and bad == len(items):
            raise Missing
        return rebuild(t, v, out)
    ct, cv = child(s, t, v, sel)
    return replace(s, t, v, sel, delete(s, ct, cv, path[1:]))


def locations(s, t, v, path=()):
    """(path, type, literal) of every location, plain data included"""
    yield path, t, v
    kind = kind_of(t, v)
    if kind == "record":
        for f in s["recs"][v[1]]["fields"]:
            if f["n"] in v[2]:
                for y in locations(s, f["t"], v[2][f["n"]],
                                   path + (f["n"],)):
                    yield y
    elif kind in ("list", "dict"):
        items = contents(t, v)
        for k, x in (enumerate(items) if kind == "list" else items.items()):
            for y in locations(s, itemtype(t), x, path + (k,)):
                yield y


# -- generation ----------------------------------------------------------------
NAMESET = NAMES


def draw_path(draw, s, t, v, wild=0.15, absent=0.0, maxlen=6):
    """a path from the root; elements may be wildcards, or (absent) things
    which are not there but could be.  Returns (path, type of its end)"""
    path = []
    r = draw(st.integers(0, 10 ** 6))
    import random
    rnd = random.Random(r)
    n = rnd.randint(1, maxlen)
    if wild and rnd.random() < 0.2:
        wild, n = 0.75, maxlen + 1
    while len(path) < n:
        kind = kind_of(t, v)
        if kind == "leaf":
            break
        if kind == "record":
            fields = s["recs"][v[1]]["fields"]
            there = [f for f in fields if f["n"] in v[2]]
            if rnd.random() < absent or not there:
                if not absent:
                    break
                f = rnd.choice(fields)
            else:
                # prefer what leads deeper
                deep = [f for f in there if f["t"][0] != "s" or
                        f["t"] == ANY]
                f = rnd.choice(deep if deep and rnd.random() < (
                    0.95 if wild > 0.7 else 0.6)
                               else there)
            path.append(f["n"])
            t, v = f["t"], v[2].get(f["n"])
            if v is None:
                if t[0] == "s":
                    break
                v = empty(t)
            continue
        items = contents(t, v)
        it = itemtype(t)
        if rnd.random() < wild:
            path.append(None)
            vals = list(items) if kind == "list" else list(items.values())
            if not vals:
                if t == ANY or it[0] == "s":
                    return path, it
                t, v = it, empty(it)
            else:
                t, v = it, rnd.choice(vals)
            continue
        if kind == "list":
            if rnd.random() < absent:
                k = len(items)
                if rnd.random() < 0.25:
                    # out of range, and not where one would append
                    k = rnd.choice([k + 1 + rnd.randrange(3),
                                    -k - 1 - rnd.randrange(3)])
            elif not items:
                break
            else:
                k = rnd.randrange(len(items))
            got = items[k] if 0 <= k < len(items) else None
            if got is not None and rnd.random() < 0.2:
                k -= len(items)
        else:
            if rnd.random() < absent:
                k = rnd.choice(KEYS)
            elif not items:
                break
            else:
                k = rnd.choice(sorted(items, key=repr))
            got = items.get(k)
        path.append(k)
        if got is None:
            if it[0] == "s":
                t, v = it, None
                break
            got = empty(it)
        t, v = it, got
    return path, t


def spoil(draw, path):
    """break a path: a wrong name, index or key at some place, perhaps more
    after it"""
    i = draw(st.integers(0, len(path)))
    new = draw(st.one_of(
        st.sampled_from(NAMESET + ["nosuch"]), st.sampled_from(KEYS),
        st.sampled_from([0, 1, 7, -1, -9, 99])))
    how = draw(st.sampled_from(["set", "set", "ins", "cut+"]))
    if how == "ins" or i == len(path):
        return path[:i] + [new] + path[i:]
    if how == "set":
        return path[:i] + [new] + path[i + 1:]
    return path[:i] + [new]


def draw_value(draw, s, t):
    return draw(values(s, t)) if t != ANY else ("A", draw(json_any))


def mutables(x, seen):
    """ids of everything changeable in an object"""
    from normalize import Record
    if id(x) in seen:
        return
    if isinstance(x, dict):
        kids = list(x.values())
    elif isinstance(x, (list, set)):
        kids = list(x)
    elif isinstance(x, Record):
        kids = list(x.__dict__.values())
    elif isinstance(x, tuple):
        for y in x:
            mutables(y, seen)
        return
    else:
        return
    seen[id(x)] = x
    for y in kids:
        mutables(y, seen)
