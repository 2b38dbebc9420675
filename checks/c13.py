"""C13: selector text paths and reprs are lossless; comparison is consistent."""
import copy
import functools
import pickle

from hypothesis import strategies as st

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, must_raise, raised, same,
    short,
)
from normalize.selector import FieldSelector, MultiFieldSelector

PROPERTY = "C13"
RULE = (
    "A case is one or several sequences of selector elements: attribute "
    "names, arbitrary strings (quotes, brackets, backslashes, newlines, "
    "empty, path syntax), integers of any sign and None.  Non-trivial: a "
    "string element which is not an identifier, a negative integer or a "
    "wildcard, or two sequences with a common prefix.")

NAMES = ["a", "b", "foo", "_x", "Bar9", "été"]
NASTY = ["", "'", "\\", "\\'", "']", "['", "a']b", "a'].b['c", "\n", "a\n",
         "\\\n", "a b", "1", "-1", "*", "[*]", "[0]", ".a", "a.b", "(", ")",
         "|", "(a|b)", "9lives", "\x00", "\u2028", "\U0001f600", "\\\\",
         "it's", "\"q\"", "]", "[", "None", "a\\", "\r", "\\'", "a|b", "²",
         "\u0661", "'\\]"]

strings = st.one_of(
    st.sampled_from(NAMES), st.sampled_from(NASTY), st.text(max_size=4),
    st.text(alphabet="'\\[]*.()|a0\n", max_size=6))
ints = st.integers(-4, 12) | st.sampled_from([2 ** 31, 10 ** 20, -10 ** 9])
elements = st.one_of(strings, strings, ints, st.none())
paths = st.lists(elements, max_size=5)


def interesting(p):
    return any(x is None or isinstance(x, int) and x < 0 or
               isinstance(x, str) and not x.isidentifier() for x in p)


def els(fs):
    return list(fs.selectors)


class SubFS(FieldSelector):
    pass


def single(case, ctx):
    p = case
    fs = FieldSelector(p)
    same(els(fs), p, "elements")
    same(els(FieldSelector(tuple(p))), p, "elements from a tuple")
    same(els(FieldSelector(iter(p))), p, "elements from an iterator")
    same(els(FieldSelector(fs)), p, "elements from a selector")
    path = must_not_raise(lambda: fs.path, "path of %s" % short(p))
    check(isinstance(path, str), "path is %s", short(path))
    same(els(FieldSelector.from_path(path)), p, "elements parsed from %s" %
         short(path))
    check(FieldSelector.from_path(path) == fs, "parsed selector not equal")
    same(els(eval(repr(fs))), p, "evaluating %r" % fs)
    check(path in str(fs), "str() %s lacks the path", str(fs))
    for proto in range(0, pickle.HIGHEST_PROTOCOL + 1):
        y = pickle.loads(pickle.dumps(fs, proto))
        same(els(y), p, "unpickled (protocol %d)" % proto)
        check(type(y) is FieldSelector, "unpickled as %s", type(y).__name__)
    for y in (copy.copy(fs), copy.deepcopy(fs)):
        same(els(y), p, "copied")
        check(y == fs and hash(y) == hash(fs), "copy is not equal")
    deep = copy.deepcopy(fs)
    deep.add_index(3)
    same(els(fs), p, "after changing a deep copy")
    new = FieldSelector(fs)
    new.add_property("more")
    same(els(fs), p, "after changing a selector made from it")
    sub = SubFS(p)
    check(type(SubFS.from_path(sub.path)) is SubFS and
          type(sub[:1]) is SubFS and type(sub + "a") is SubFS,
          "operations on a subclass give %s", type(sub[:1]))
    # a longer path is that of its parts
    same("".join(FieldSelector([x]).path for x in p), path, "joined paths")
    ctx.hit(interesting(p))


# -- comparison, indexing, concatenation against lists ----------------------------
@st.composite
def pairs(draw):
    p = draw(paths)
    how = draw(st.sampled_from(["any", "prefix", "longer", "edit", "edit"]))
    if how == "any":
        q = draw(paths)
    elif how == "prefix":
        q = p[:draw(st.integers(0, len(p)))]
    elif how == "longer":
        q = p + draw(paths)
    else:
        q = list(p)
        if q:
            i = draw(st.integers(0, len(q) - 1))
            x = q[i]
            q[i] = draw(strings if isinstance(x, str) else
                        ints if isinstance(x, int) else elements)
    return (p, q, draw(elements), draw(st.slices(5)),
            draw(st.integers(-6, 6)))


def model_lt(p, q):
    """None if not comparable"""
    for x, y in zip(p, q):
        if x == y:
            continue
        if type(x) is not type(y):
            return None
        return x < y
    return len(p) < len(q)


def relations(case, ctx):
    p, q, x, sl, i = case
    a, b = FieldSelector(p), FieldSelector(q)
    check((a == b) is (p == q), "%r == %r gives %s", a, b, a == b)
    check((a != b) is (p != q), "%r != %r gives %s", a, b, a != b)
    if p == q:
        check(hash(a) == hash(b), "equal selectors %r, different hashes", a)
    check(len({a, b}) == (1 if p == q else 2), "set of %r and %r", a, b)
    check({a: 1}.get(b) == (1 if p == q else None), "dict lookup of %r", b)
    lt = model_lt(p, q)
    for op, want in (("__lt__", lt), ("__gt__", model_lt(q, p)),
                     ("__le__", lt if lt is None else lt or p == q),
                     ("__ge__", lt if lt is None else not lt)):
        if want is None:
            must_raise(TypeError, lambda: getattr(a, op)(b),
                       "%r.%s(%r)" % (a, op, b))
        else:
            got = must_not_raise(lambda: getattr(a, op)(b),
                                 "%r.%s(%r)" % (a, op, b))
            check(got is want, "%r.%s(%r) gives %s", a, op, b, got)
    # prefixes
    for arg in (b, q, tuple(q)):
        got = must_not_raise(lambda: a.startswith(arg),
                             "%r.startswith(%s)" % (a, short(arg)))
        check(got is (p[:len(q)] == q), "%r.startswith(%s) gives %s", a,
              short(arg), got)
    got = must_not_raise(lambda: a.startswith(x), "%r.startswith(%r)" %
                         (a, x))
    check(got is (bool(p) and p[0] == x), "%r.startswith(%r) gives %s", a, x,
          got)
    # sequences
    same(len(a), len(p), "length")
    same(els(a[sl]), p[sl], "%r[%s]" % (a, sl))
    check(isinstance(a[sl], FieldSelector), "slice is a %s", type(a[sl]))
    if -len(p) <= i < len(p):
        same(a[i], p[i], "%r[%d]" % (a, i))
    else:
        must_raise(IndexError, lambda: a[i], "%r[%d]" % (a, i))
    same(list(a), p, "iterating")
    # concatenation
    for arg in (b, q, tuple(q)):
        same(els(a + arg), p + q, "%r + %s" % (a, short(arg)))
    if x is not None:
        same(els(a + x), p + [x], "%r + %r" % (a, x))
    same(els(a), p, "after +")
    same(els(b), q, "after being added")
    c = FieldSelector(p)
    check(c.extend(b) is c, "extend() returns something else")
    same(els(c), p + q, "extended")
    same(els(b), q, "after extending another")
    if isinstance(x, str):
        c.add_property(x)
        must_raise(ValueError, lambda: c.add_index(x), "add_index(%r)" % x)
    elif x is None:
        c.add_full_collection()
        must_raise(ValueError, lambda: c.add_index(x), "add_index(%r)" % x)
        must_raise(ValueError, lambda: c.add_property(x), "add_property(None)")
    else:
        c.add_index(x)
        must_raise(ValueError, lambda: c.add_property(x),
                   "add_property(%r)" % x)
    same(els(c), p + q + [x], "after adding %r" % (x,))
    same(els(a), p, "after extending a copy")
    must_raise(TypeError, lambda: a == p, "comparing with a list")
    ctx.hit(bool(p) and bool(q) and p[0] == q[0] or interesting(p))


# -- each selector has its own path --------------------------------------------
@st.composite
def sharings(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        ops.append((draw(st.sampled_from([
            "new", "copy", "plus", "plus", "list", "element", "slice", "text",
            "pickle", "deepcopy", "multi", "extend", "extend", "extend",
            "add", "add"])), draw(st.integers(0, 7)), draw(st.integers(0, 7)),
            draw(elements), draw(st.slices(3))))
    return (draw(st.sampled_from([[], [[]]])) + [draw(paths)], ops)


def sharing(case, ctx):
    """what is made from selectors stays what it is when these are extended"""
    first, ops = case
    kept = [list(p) for p in first]     # lists handed over
    given = [list(p) for p in first]
    sels, model = [FieldSelector(p) for p in kept], [list(p) for p in first]
    changed = 0
    for op, i, j, x, sl in ops:
        a, p = sels[i % len(sels)], model[i % len(sels)]
        b, q = sels[j % len(sels)], model[j % len(sels)]
        what = "%s of %r and %r (%r, %s)" % (op, a, b, x, sl)
        if op == "extend":
            a.extend(b)
            p.extend(list(q))
        elif op == "add":
            if x is None:
                a.add_full_collection()
            elif isinstance(x, str):
                a.add_property(x)
            else:
                a.add_index(x)
            p.append(x)
        else:
            if op == "multi":
                got = list(MultiFieldSelector(a))
                # (the empty path selects everything: it has no steps)
                if len(got) != 1 or els(got[0]) != p:
                    continue
                new, want = got[0], p
            elif op == "new":
                kept.append([x])
                given.append([x])
                new, want = FieldSelector(kept[-1]), [x]
            elif op == "copy":
                new, want = FieldSelector(a), p
            elif op == "plus":
                new, want = a + b, p + q
            elif op == "list":
                kept.append(list(q))
                given.append(list(q))
                new, want = a + kept[-1], p + q
            elif op == "element":
                if x is None:
                    continue
                new, want = a + x, p + [x]
            elif op == "slice":
                new, want = a[sl], p[sl]
            elif op == "text":
                if not p:
                    continue
                new, want = FieldSelector.from_path(a.path), p
            elif op == "pickle":
                new, want = pickle.loads(pickle.dumps(a)), p
            else:
                new, want = copy.deepcopy(a), p
            check(all(new is not y for y in sels), "%s is not a new one", what)
            sels.append(new)
            model.append(list(want))
        changed += op in ("extend", "add") and len(sels) > 1
        for y, r in zip(sels, model):
            same(els(y), r, "after " + what)
    for y in sels:
        y.add_index(7)
    same(kept, given, "lists which selectors were made from")
    ctx.hit(changed > 0)


# -- sorting -----------------------------------------------------------------------
KINDS = st.lists(st.sampled_from("si"), min_size=1, max_size=3)


@st.composite
def families(draw):
    """selectors comparable with each other: same kind at the same place"""
    kinds = draw(KINDS)
    el = {"s": st.sampled_from(["a", "b", "c", "B", ""]),
          "i": st.integers(-2, 12)}
    return draw(st.lists(
        st.integers(0, len(kinds)).flatmap(lambda n: st.tuples(
            *[el[k] for k in kinds[:n]])).map(list), min_size=2, max_size=6))


def sorting(case, ctx):
    sels = [FieldSelector(p) for p in case]
    got = [els(x) for x in sorted(sels)]
    same(got, sorted(case), "sorted selectors")
    same(els(min(sels)), min(case), "smallest selector")
    same([els(x) for x in sels], case, "after sorting")
    ctx.hit(len(set(map(tuple, case))) > 1)


# -- illegal elements ----------------------------------------------------------------
ILLEGAL = [1.0, 0.0, -0.5, (), (1,), b"", b"a", [], {}, {"a": 1}, 1j, 0j,
           frozenset(), "@obj", "@fs", "@type"]


@st.composite
def illegals(draw):
    p = draw(paths)
    bad = draw(st.sampled_from(ILLEGAL))
    i = draw(st.integers(0, len(p)))
    return (p, i, bad)


def illegal(case, ctx):
    p, i, bad = case
    bad = {"@obj": object(), "@fs": FieldSelector(["a"]),
           "@type": int}.get(bad, bad) if isinstance(bad, str) else bad
    q = p[:i] + [bad] + p[i:]
    must_raise(ValueError, lambda: FieldSelector(q), "FieldSelector(%s)" %
               short(q))
    must_raise(ValueError, lambda: FieldSelector(tuple(q)),
               "FieldSelector(%s)" % short(q))
    must_raise((ValueError, TypeError), lambda: FieldSelector(p) + [bad],
               "adding [%s]" % short(bad))
    fs = FieldSelector(p)
    must_raise(ValueError, lambda: fs.add_property(bad), "add_property")
    must_raise(ValueError, lambda: fs.add_index(bad), "add_index")
    same(els(fs), p, "after failing to add")
    ctx.hit()


# -- multi-selectors -------------------------------------------------------------------
def conflict(ps):
    """None next to names or indexes: documented not to be possible (yet)"""
    heads = {}
    for p in ps:
        heads.setdefault(p[0] if p else None, []).append(
            tuple(p[1:]) if p else ())
    if None in heads and len(heads) > 1:
        return True
    return any(() not in tails and conflict(tails)
               for tails in heads.values())


def normal(ps):
    """the set of paths, without those below another"""
    ps = set(tuple(p) if p else (None,) for p in ps)
    return set(p for p in ps if not any(
        p[:n] in ps for n in range(1, len(p))))


@st.composite
def sets(draw):
    pool = draw(st.lists(strings, min_size=2, max_size=3))
    el = st.one_of(
        st.sampled_from(pool), st.sampled_from(pool), st.integers(-2, 3),
        st.integers(-2, 3) | st.sampled_from([10, 123, -10, 2 ** 40]))
    if draw(st.integers(0, 3)) == 0:
        el = el | st.none()
    n, m = draw(st.sampled_from([(4, 6), (4, 6), (4, 6), (7, 4), (2, 14)]))
    ps = draw(st.lists(st.lists(el, min_size=1, max_size=n), max_size=m))
    return (ps, draw(st.permutations(range(len(ps)))),
            draw(st.integers(0, len(ps))))


def expand(m):
    out = [tuple(els(x)) for x in m]
    check(len(out) == len(set(out)), "paths repeated in %r", m)
    return set(out)


def multi(case, ctx):
    ps, order, k = case
    if conflict(ps):
        r = attempt(lambda: MultiFieldSelector(*ps))
        check(isinstance(r, Raised) and isinstance(r.exc, ValueError),
              "conflicting paths %s give %s", short(ps), short(r))
        ctx.event("conflict")
        return
    want = normal(ps)
    m = MultiFieldSelector(*ps)
    same(expand(m), want, "paths of a multi-selector of %s" % short(ps))
    ways = [MultiFieldSelector(*[FieldSelector(p) for p in ps]),
            MultiFieldSelector(*[ps[i] for i in order]),
            MultiFieldSelector(m), MultiFieldSelector(m, m),
            MultiFieldSelector(*(list(m) + ps))]
    if not conflict(ps[:k]):
        some = MultiFieldSelector(*ps[:k])
        ways += [MultiFieldSelector(some, *ps[k:]),
                 MultiFieldSelector(*(ps[k:] + [some]))]
    for w in ways:
        same(expand(w), want, "paths when made another way")
    path = must_not_raise(lambda: m.path, "path of %r" % m)
    back = must_not_raise(lambda: MultiFieldSelector.from_path(path),
                          "parsing %s" % short(path))
    same(expand(back), want, "paths parsed from %s" % short(path))
    same(expand(eval(repr(m))), want, "evaluating %r" % m)
    check(path in str(m), "str() %s lacks the path", str(m))
    check(bool(m) is bool(want), "bool(%r) is %s", m, bool(m))
    for proto in range(0, pickle.HIGHEST_PROTOCOL + 1):
        same(expand(pickle.loads(pickle.dumps(m, proto))), want, "unpickled")
    for y in (copy.copy(m), copy.deepcopy(m)):
        same(expand(y), want, "copied")
        for p in want:
            check(FieldSelector(p) in y, "%s not in the copy", p)
    # the paths of one multi-selector sort
    ctx.hit(len(want) > 1)
    ctx.event("%d paths" % len(want))


PARTS = [
    Part("sharing", sharings, sharing, quick=1000),
    Part("single", lambda: paths, single, quick=2000),
    Part("relations", pairs, relations, quick=2500),
    Part("sorting", families, sorting, quick=400),
    Part("illegal", illegals, illegal, quick=300),
    Part("multi", sets, multi, quick=2000),
]
