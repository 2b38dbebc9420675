"""C14: multi-selectors project, match, delete and patch exactly their paths."""
from hypothesis import strategies as st

from lib import treemodel as tm
from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, must_raise, same, short,
)
from lib.schema import build, dense, lit_eq, schemas, values
from lib.treemodel import Misfit, Missing, draw_path, mutables, spoil
from normalize.exc import FieldSelectorException
from normalize.selector import FieldSelector, MultiFieldSelector

PROPERTY = "C14"
RULE = (
    "A case is a tree of generated record types, typed lists and dicts and "
    "plain data, with a set of paths (existing, absent, with wildcards), "
    "which is selected, matched against all locations and other paths, "
    "deleted, or patched from a second tree of the same type; results are "
    "compared with a model on nested literals.  Non-trivial: two or more "
    "paths, or a wildcard.")

ALL = "*all*"


class Conflict(Exception):
    pass


def trie(paths):
    """nested dict of path elements; ALL where everything is selected"""
    heads = {}
    for p in paths:
        p = list(p) or [None]
        heads.setdefault(p[0], []).append(p[1:])
    if None in heads and len(heads) > 1:
        raise Conflict
    return {h: ALL if [] in tails else trie(tails)
            for h, tails in heads.items()}


def covered(tr, path):
    """ALL, a sub-trie, or None"""
    for x in path:
        if tr == ALL:
            return ALL
        tr = tr.get(None if None in tr else x)
        if tr is None:
            return None
    return tr


def complete(tr):
    return tr == ALL or tr == {None: ALL}


def paths_of(tr):
    if tr == ALL:
        return {()}
    return {(h,) + p for h, sub in tr.items() for p in paths_of(sub)}


def is_none(v):
    return v == ("A", None)


def project(s, t, v, tr):
    if tr == ALL:
        return v
    kind = tm.kind_of(t, v)
    if kind in ("list", "dict"):
        items = tm.contents(t, v)
        it = tm.itemtype(t)
        if kind == "list":
            if None in tr:
                out = [project(s, it, x, tr[None]) for x in items]
            elif any(not isinstance(k, int) for k in tr):
                raise Misfit
            else:
                out = []
                for k in sorted(tr):
                    if not 0 <= k < len(items):
                        raise Missing
                    out.append(project(s, it, items[k], tr[k]))
        elif None in tr:
            out = {k: project(s, it, x, tr[None]) for k, x in items.items()}
        else:
            out = {k: project(s, it, items[k], tr[k]) for k in tr
                   if k in items}
        return tm.rebuild(t, v, out)
    if kind == "leaf":
        if tr == {None: ALL}:
            return v
        raise Misfit
    if None in tr:
        if tr[None] == ALL:
            return v
        raise Misfit
    out = {}
    for k, sub in tr.items():
        if not isinstance(k, str):
            raise Misfit
        if k in v[2] and not is_none(v[2][k]):
            out[k] = project(
                s, tm.field_of(s, t, v, k)["t"], v[2][k], sub)
    return v[:2] + (out,)


def remove(s, t, v, tr):
    kind = tm.kind_of(t, v)
    if kind == "leaf":
        return v
    if kind == "record":
        if None in tr:
            raise Misfit
        out = dict(v[2])
        for k, sub in tr.items():
            if k in out:
                if sub == ALL:
                    del out[k]
                else:
                    out[k] = remove(s, tm.field_of(s, t, v, k)["t"], out[k],
                                    sub)
        return v[:2] + (out,) + v[3:]
    items = tm.contents(t, v)
    it = tm.itemtype(t)
    if None in tr:
        if tr[None] == ALL:
            out = type(items)()
        elif kind == "list":
            out = [remove(s, it, x, tr[None]) for x in items]
        else:
            out = {k: remove(s, it, x, tr[None]) for k, x in items.items()}
    else:
        out = {}
        for k, x in (enumerate(items) if kind == "list" else items.items()):
            if k not in tr:
                out[k] = x
            elif tr[k] != ALL:
                out[k] = remove(s, it, x, tr[k])
        if kind == "list":
            out = list(out.values())
    return tm.rebuild(t, v, out)


# -- generation --------------------------------------------------------------------
@st.composite
def roots(draw, **kw):
    if draw(st.integers(0, 2)) == 0:
        # many collections in collections
        kw = dict(dict(lo=4, kinds="slllldr"), **kw)
    s = draw(schemas(
        750, poly=draw(st.sampled_from([0, 0.3])), req=0,
        scalars=["int", "str", "float", "any", "any"],
        items=["int", "str"], **kw))
    t = ("r", 0)
    if draw(st.integers(0, 4)) == 0:
        t = (draw(st.sampled_from("ld")), t,
             draw(st.sampled_from(["plain", "json", "sub", "jsub"])))
    return s, t, draw(draw(st.sampled_from([values, dense]))(s, t))


def draw_paths(draw, s, t, v, absent=0.1, wild=0.2, most=5, neg=False):
    """a set of paths without conflicts"""
    out = []
    for _ in range(draw(st.integers(1, most))):
        p, _t = draw_path(draw, s, t, v, wild=wild, absent=absent,
                          maxlen=4)
        if not neg:
            if any(isinstance(x, int) and x < 0 for x in p):
                p = nonneg(s, t, v, p)
        more = [p] if p else []
        if more and draw(st.integers(0, 3)) == 0:
            # other items of the same list
            more.extend(siblings(s, t, v, p, draw(st.lists(
                st.integers(0, 12), min_size=1, max_size=3))))
        for p in more:
            try:
                trie(out + [p])
            except Conflict:
                continue
            out.append(p)
    return out


def siblings(s, t, v, path, ks):
    for i, x in enumerate(path):
        if isinstance(x, int) and not isinstance(x, bool):
            got = None if None in path[:i] else attempt(
                lambda: tm.get(s, t, v, path[:i]))
            if not got or isinstance(got, Raised) or \
                    tm.kind_of(*got[1:]) != "list":
                return
            n = len(tm.contents(*got[1:]))
            for k in ks:
                if n:
                    yield list(path[:i]) + [n - 1 - k % n] + \
                        list(path[i + 1:])
            return


def nonneg(s, t, v, path):
    """negative indexes made the indexes they mean"""
    out = []
    for x in path:
        if isinstance(x, int) and x < 0:
            if v is None or tm.kind_of(t, v) != "list":
                return []
            x += len(tm.contents(t, v))
        out.append(x)
        try:
            if v is not None:
                if x is None:
                    kids = tm.all_items(t, v)
                    t, v = tm.itemtype(t), kids[0] if kids else None
                    if kids and len(path) > len(out):
                        # (any of them may have been meant: leave out)
                        if any(isinstance(y, int) and y < 0
                               for y in path[len(out):]):
                            return []
                else:
                    t, v = tm.child(s, t, v, x)
        except (Missing, Misfit):
            v = None
    return out


# -- construction --------------------------------------------------------------------
@st.composite
def pathsets(draw):
    elem = st.sampled_from(draw(st.sampled_from([
        ["a", "b", "c"], ["a", "b", 0, 1, 2], ["a", "b", "c", 0, 1, None],
        ["a", None], ["a", "b", "a b", "'", 0]])))
    sets = draw(st.lists(st.lists(st.lists(elem, max_size=4), max_size=4),
                         min_size=1, max_size=3))
    probes = draw(st.lists(st.lists(st.sampled_from(
        ["a", "b", "c", 0, 1, 2]), max_size=5), max_size=6))
    return sets, probes


def matching(case, ctx):
    sets, probes = case
    allp = [p for ps in sets for p in ps]
    try:
        # (the parts are to be valid themselves)
        for ps in sets:
            trie(ps)
        tr = trie(allp)
    except Conflict:
        # mixing wildcards with names or indexes is refused
        if len(sets) == 1:
            must_raise(ValueError, lambda: MultiFieldSelector(*allp),
                       "MultiFieldSelector(*%r)" % (allp,))
        ctx.event("conflict")
        return
    m = must_not_raise(lambda: MultiFieldSelector(*allp),
                       "MultiFieldSelector(*%r)" % (allp,))
    verify(m, tr, probes, ctx)
    # combinations of multi-selectors have the paths of all
    m2 = must_not_raise(
        lambda: MultiFieldSelector(*[MultiFieldSelector(
            *[FieldSelector(p) for p in ps]) for ps in sets]),
        "multi-selector of multi-selectors %r" % (sets,))
    verify(m2, tr, probes, ctx)
    ctx.hit(len(allp) > 1)


def verify(m, tr, probes, ctx):
    same(set(tuple(fs.selectors) for fs in m), paths_of(tr),
         "paths of %r" % m)
    same(bool(m.complete), complete(tr), "completeness of %r" % m)
    for p in probes:
        want = covered(tr, p)
        what = "%r in %r" % (p, m)
        for q in (p, tuple(p), FieldSelector(p)):
            got = must_not_raise(lambda: q in m, what)
            same(bool(got), complete(want) if want else False, what)
        if len(p) > 0:
            same(p[0] in m, None in tr or p[0] in tr,
                 "%r in %r" % (p[0], m))
        what = "%r[%r]" % (m, p)
        for q in (p, tuple(p), FieldSelector(p)):
            sub = must_not_raise(lambda: m[q], what)
            if want is None:
                check(sub is None, "%s is %r, not None", what, sub)
                ctx.event("disjoint")
                continue
            check(isinstance(sub, MultiFieldSelector), "%s is %r", what, sub)
            same(bool(sub.complete), complete(want),
                 "completeness of %s" % what)
            if not complete(want):
                same(set(tuple(fs.selectors) for fs in sub), paths_of(want),
                     "paths of %s" % what)
            ctx.event("complete" if complete(want) else "partial")
        if len(p) == 1:
            sub = m[p[0]]
            if want is None:
                check(sub is None, "%r[%r] is %r", m, p[0], sub)
            else:
                same((bool(sub.complete), set(map(str, sub))),
                     (bool(m[p].complete), set(map(str, m[p]))),
                     "%r[%r]" % (m, p[0]))


# -- get ------------------------------------------------------------------------------
@st.composite
def selections(draw):
    s, t, v = draw(roots())
    ps = draw_paths(draw, s, t, v)
    if draw(st.integers(0, 7)) == 0 and ps:
        i = draw(st.integers(0, len(ps) - 1))
        ps[i] = spoil(draw, ps[i])
    if draw(st.integers(0, 15)) == 0:
        ps = [[]]
    return s, t, v, ps


def selecting(case, ctx):
    s, t, v, ps = case
    try:
        tr = trie(ps)
    except Conflict:
        return
    B = build(s)
    x = B.mk(t, v)
    m = MultiFieldSelector(*ps)
    what = "%r.get(%s)" % (m, short(x))
    try:
        want = project(s, t, v, tr)
    except (Missing, Misfit) as e:
        # (an index which is not there; a name in a list; ...)
        attempt(lambda: m.get(x))
        ctx.event(type(e).__name__)
    else:
        got = must_not_raise(lambda: m.get(x), what)
        lit = B.un(t, got)
        check(lit_eq(lit, want), "%s gives %s, expected %s", what,
              short(lit, 500), short(want, 500))
        mine, theirs = {}, {}
        mutables(x, mine)
        mutables(got, theirs)
        both = [theirs[k] for k in theirs if k in mine]
        check(not both, "%s shares %s with the original", what, short(both))
        # what is selected is all there is to select
        if not any(isinstance(e, int) for p in ps for e in p):
            again = must_not_raise(lambda: m.get(got), what + " twice")
            check(lit_eq(B.un(t, again), want), "%s: selecting again gives "
                  "%s", what, short(again))
        # membership tells what is there
        if not any(isinstance(e, int) for p in ps for e in p):
            for p, lt, lv in tm.locations(s, t, v):
                if FieldSelector(p) in m and not none_on(s, t, v, p):
                    there = must_not_raise(
                        lambda: FieldSelector(p).get(got),
                        "%r, which is in %r" % (p, m))
                    check(lit_eq(B.un(lt, there), lv),
                          "%r is %s in the selected part, not %s", p,
                          short(there), short(lv))
        ctx.event("selected")
        ctx.hit(len(ps) > 1 or any(None in p for p in ps))
    check(lit_eq(B.un(t, x), v), "%s changed the original to %s", what,
          short(x))


def none_on(s, t, v, p):
    """is there a None on the path?"""
    for x in p:
        t, v = tm.child(s, t, v, x)
        if is_none(v):
            return True
    return False


# -- delete ------------------------------------------------------------------------------
@st.composite
def deletions(draw):
    s, t, v = draw(roots())
    absent = draw(st.sampled_from([0, 0, 0.2]))
    ps = draw_paths(draw, s, t, v, absent=absent)
    if draw(st.integers(0, 7)) == 0 and ps:
        i = draw(st.integers(0, len(ps) - 1))
        ps[i] = spoil(draw, ps[i])
    return s, t, v, ps, draw(st.booleans())


def deleting(case, ctx):
    s, t, v, ps, force = case
    try:
        tr = trie(ps)
    except Conflict:
        return
    if any(isinstance(e, int) and e < 0 for p in ps for e in p):
        return
    B = build(s)
    x = B.mk(t, v)
    m = MultiFieldSelector(*ps)
    what = "%r.delete(%s%s)" % (m, short(x), ", force=True" if force else "")
    fn = lambda: m.delete(x, **({"force": True} if force else {}))  # noqa
    fail = None
    for p in paths_of(tr):
        try:
            tm.get(s, t, v, p)
        except Misfit:
            fail = "misfit"
            break
        except Missing:
            fail = fail or "missing"
    if fail == "misfit":
        attempt(fn)
        ctx.event("misfit")
        return
    if fail and not force:
        must_raise(FieldSelectorException, fn, what)
        check(lit_eq(B.un(t, x), v), "failed %s: tree is now %s", what,
              short(x, 500))
        ctx.event("missing")
        return
    try:
        want = remove(s, t, v, tr)
    except Misfit:
        attempt(fn)
        return
    must_not_raise(fn, what)
    got = B.un(t, x)
    check(lit_eq(got, want), "%s: tree is %s, expected %s", what,
          short(got, 500), short(want, 500))
    ctx.event("deleted" + (" (force)" if fail else ""))
    ctx.hit(len(ps) > 1 or any(None in p for p in ps))


# -- patch -------------------------------------------------------------------------------
@st.composite
def patches(draw):
    s, t, v = draw(roots())
    v2 = draw(values(s, t))
    if draw(st.booleans()):
        v, v2 = v2, v
    from lib.schema import mutate
    if draw(st.booleans()):
        v2 = v
        for _ in range(draw(st.integers(1, 3))):
            v2 = mutate(s, t, v2, draw)
    ps = draw_paths(draw, s, t, v2, wild=draw(st.sampled_from([0.2, 0.5])),
                    absent=draw(st.sampled_from([0, 0, 0.1])))
    if draw(st.booleans()):
        ps += [p for p in draw_paths(draw, s, t, v, absent=0, most=2)]
    return s, t, v, v2, ps, draw(st.sampled_from(
        [None, False, True, "fn"]))


def expand(s, t, v, p):
    """wildcards (but for the last) replaced by what they stand for"""
    if None not in p[:-1]:
        return [list(p)]
    i = list(p).index(None)
    got = tm.get(s, t, v, p[:i])
    kind = tm.kind_of(got[1], got[2])
    if kind not in ("list", "dict"):
        raise Misfit
    items = tm.contents(got[1], got[2])
    out = []
    for k in (range(len(items)) if kind == "list" else items):
        out.extend(expand(s, t, v, list(p[:i]) + [k] + list(p[i + 1:])))
    return out


def order(p):
    return [(x is not None, isinstance(x, str), x) for x in p]


def kinds_differ(s, t, v, src, p):
    """does a path go through attributes of different types? (two record
    types derived from one may have added attributes of the same name)"""
    t2 = t
    for x in p:
        if x is None:
            break
        try:
            if tm.child_type(s, t, v, x) != tm.child_type(s, t2, src, x):
                return True
            (t, v), (t2, src) = tm.child(s, t, v, x), tm.child(s, t2, src, x)
        except (Missing, Misfit):
            break
    return False


def patched(s, t, v, src, tr):
    """the target literal, or an exception"""
    todo = []
    for p in sorted(paths_of(tr), key=order):
        try:
            todo.extend(expand(s, t, src, p))
        except Missing:
            raise Misfit
    vals = []
    for p in todo:
        where = src
        wt = t
        missing = False
        for i, x in enumerate(p):
            if x is None:
                break
            kind = tm.kind_of(wt, where)
            try:
                wt, where = tm.child(s, wt, where, x)
            except Missing:
                if kind in ("list", "dict"):
                    raise
                missing = True
                break
        if missing:
            vals.append((p, None))
        elif p[-1] is None:
            if tm.kind_of(wt, where) not in ("list", "dict"):
                raise Misfit
            vals.append((p, (tm.contents(wt, where),)))
        else:
            vals.append((p, (where,)))
    vals.sort(key=lambda x: order(x[0]))
    for p, val in vals:
        if val is not None and kinds_differ(s, t, v, src, p):
            raise Misfit
        if val is None:
            try:
                v = tm.delete(s, t, v, p)
            except Missing:
                pass
        else:
            if p[-1] is None:
                try:
                    was = tm.get(s, t, v, p[:-1])
                except Missing:
                    pass
                else:
                    if tm.kind_of(*was[1:]) != (
                            "list" if isinstance(val[0], list) else "dict"):
                        raise Misfit
            v, _n = tm.post(s, t, v, p, val[0])
    return v


def all_counted(s, t, v, src, ps):
    """no collection of the target with more items than the source's where
    there is a wildcard"""
    for p in ps:
        for i, x in enumerate(p[:-1]):
            if x is not None:
                continue
            try:
                # (the first wildcard; the others by way of expansion)
                for q in expand(s, t, v, p):
                    ok = False
                    for r in expand(s, t, src, p):
                        if list(q) == list(r):
                            ok = True
                    if not ok:
                        return False
            except (Missing, Misfit):
                pass
    return True


def patching(case, ctx):
    s, t, v, src, ps, how = case
    try:
        tr = trie(ps)
    except Conflict:
        return
    if any(isinstance(e, int) and e < 0 for p in ps for e in p):
        return
    if not all_counted(s, t, v, src, ps):
        ctx.event("more items")
        return
    B = build(s)
    x = B.mk(t, v)
    y = B.mk(t, src)
    m = MultiFieldSelector(*ps)
    kw = {}
    copied = []
    if how == "fn":
        import copy

        def fn(z):
            copied.append(z)
            return copy.deepcopy(z)
        kw = {"copy": fn}
    elif how is not None:
        kw = {"copy": how}
    what = "%r.patch(%s, %s%s)" % (m, short(x), short(y),
                                   ", copy" if kw else "")
    fn = lambda: m.patch(x, y, **kw)        # noqa: E731
    try:
        want = patched(s, t, v, src, tr)
    except Missing:
        attempt(fn)
        ctx.event("missing")
    except Misfit:
        attempt(fn)
        ctx.event("misfit")
    else:
        ctx.event("%d wildcards" % max([0] + [sum(x is None for x in p) for p in paths_of(tr)]))
        must_not_raise(fn, what)
        got = B.un(t, x)
        check(lit_eq(got, want), "%s: target is %s, expected %s", what,
              short(got, 600), short(want, 600))
        if how in (True, "fn"):
            mine, theirs = {}, {}
            mutables(x, mine)
            mutables(y, theirs)
            both = [theirs[k] for k in theirs if k in mine]
            check(not both, "%s: target and source share %s", what,
                  short(both))
        ctx.event("patched")
        ctx.hit(len(ps) > 1 or any(None in p for p in ps))
    check(lit_eq(B.un(t, y), src), "%s changed the source to %s", what,
          short(y))


PARTS = [
    Part("matching", pathsets, matching, quick=1500),
    Part("selecting", selections, selecting, quick=2000),
    Part("deleting", deletions, deleting, quick=1500),
    Part("patching", patches, patching, quick=2000),
]
