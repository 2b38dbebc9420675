"""C17: each diff option hides exactly the differences it names."""
import unicodedata

from hypothesis import strategies as st

from normalize import FieldSelector, MultiFieldSelector
from normalize.diff import DiffOptions, diff_iter

from lib.diffmodel import Filter, agree, reports
from lib.harness import Part, check, must_not_raise, short
from lib.schema import Built, build, dense, lit_eq, make_schema, mutate

PROPERTY = "C17"
RULE = (
    "A case is a generated family of record types (text in attributes, "
    "lists, dicts and nested records; comparison clean-up functions, "
    "extraneous attributes, keys), a value, a second one derived from it by "
    "changes that options name (white space, case, normal form, emptiness, "
    "extraneous, cleaned-up, outside the filter, another class) and perhaps "
    "by others, and options.  Non-trivial: the two differ and at least two "
    "options are not at their default, or a filter or class is used.")

TOP = ("r", 0)
FEATURES = dict(json=0.3, scalars=["str", "str", "str", "any", "int"],
                items=["str", "str", "int"], pk=0.3, req=0.0, jn=0.0,
                jnone=0.0, x=0.2, kinds="sssrrlld")
TEXT = ["", "a", "b", "ab", "a b", "\u00e9", "a\u00e9 c", "d", "a\nb c",
        " ", "e\u0301x", "B",
        # letters which upper and lower case, and normal forms, treat
        # differently
        "\u00df", "ss", "\u017f", "\u0390", "\u03aa\u0301", "\u0131x"]
SCAL = {"str": st.sampled_from(TEXT), "int": st.integers(0, 4),
        "any": st.sampled_from([None, "", "a", "b c", 0, 1, True]).map(
            lambda x: ("A", x))}
DKEYS = st.sampled_from(["a", "b", "c"])
FLAGS = ["ignore_ws", "ignore_case", "unicode_normal", "unchanged", "moved",
         "ignore_empty_slots", "ignore_empty_items", "extraneous",
         "fuzzy_match", "recurse"]


def draw_opts(draw, names=FLAGS):
    return {n: draw(st.booleans()) for n in names if draw(st.booleans())}


@st.composite
def families(draw, ca=True, **features):
    poly = draw(st.sampled_from([0.0, 0.0, 0.4]))
    s = make_schema(draw(st.integers(4, 500)), **dict(
        dict(FEATURES, poly=poly), **features))
    if not ca:
        return s
    for rec in s["recs"]:
        for f in rec["fields"]:
            if f["t"][0] == "s" and draw(st.integers(0, 3)) == 0:
                f["ca"] = draw(st.sampled_from(
                    ["lower", "mod", "same", "none", "neg", "pad"]))
            elif f["t"][0] in "ld" and draw(st.integers(0, 7)) == 0:
                f["ca"] = "len"
    return s


# -- noise: changes which an option names ---------------------------------------
def ws(draw, x):
    if not isinstance(x, str):
        return x
    how = draw(st.sampled_from([" %s", "%s ", "\t%s\n", "mid", "\u00a0%s"]))
    if how == "mid":
        return x.replace(" ", " \n ") if " " in x else x + " "
    return how % x


def case(draw, x):
    return x.swapcase() if isinstance(x, str) else x


def nf(draw, x):
    if not isinstance(x, str):
        return x
    y = unicodedata.normalize("NFD", x)
    return y if y != x else unicodedata.normalize("NFC", x)


NOISE = {"ignore_ws": ws, "ignore_case": case, "unicode_normal": nf}


def noisy(draw, s, t, v, fn, p=1):
    """v with fn applied to its text (1 in p+1 of it left alone); keys of
    dicts are not touched"""
    if t[0] == "s":
        if draw(st.integers(0, p)) == 0:
            return v
        if isinstance(v, tuple) and v[0] == "A":
            return ("A", fn(draw, v[1]))
        return fn(draw, v)
    if t[0] == "r":
        types = {f["n"]: f["t"] for f in s["recs"][v[1]]["fields"]}
        return ("R", v[1], {n: noisy(draw, s, types[n], x, fn, p)
                            for n, x in v[2].items()})
    if t[0] == "l":
        return ("L", [noisy(draw, s, t[1], x, fn, p) for x in v[1]])
    return ("D", {k: noisy(draw, s, t[1], x, fn, p)
                  for k, x in v[1].items()})


def empties(draw, s, t, v):
    """empty text <-> None (where allowed) <-> not set"""
    if t[0] == "r":
        out = {}
        for f in s["recs"][v[1]]["fields"]:
            n, ft = f["n"], f["t"]
            x = v[2].get(n)
            if ft in (("s", "str"), ("s", "any")) and (
                    n not in v[2] or x in ("", ("A", ""), ("A", None))):
                how = draw(st.sampled_from(["", "unset", "none", "keep"]))
                if how == "":
                    out[n] = "" if ft[1] == "str" else ("A", "")
                    continue
                elif how == "unset":
                    continue
                elif how == "none" and ft[1] == "any":
                    out[n] = ("A", None)
                    continue
            if n in v[2]:
                out[n] = empties(draw, s, ft, x)
        return ("R", v[1], out)
    if t[0] == "l":
        return ("L", [empties(draw, s, t[1], x) for x in v[1]])
    if t[0] == "d":
        return ("D", {k: empties(draw, s, t[1], x) for k, x in v[1].items()})
    return v


def extras(draw, s, t, v):
    """other values for extraneous attributes"""
    if t[0] == "r":
        out = {}
        for f in s["recs"][v[1]]["fields"]:
            n = f["n"]
            if f.get("x") and draw(st.booleans()):
                if draw(st.booleans()):
                    out[n] = draw(dense(s, f["t"], scalars=SCAL, keys=DKEYS))
            elif n in v[2]:
                out[n] = extras(draw, s, f["t"], v[2][n])
        return ("R", v[1], out)
    if t[0] == "l":
        return ("L", [extras(draw, s, t[1], x) for x in v[1]])
    if t[0] == "d":
        return ("D", {k: extras(draw, s, t[1], x) for k, x in v[1].items()})
    return v


def diffs(a, b, opts, what):
    return must_not_raise(lambda: reports(diff_iter(a, b, **opts)), what)


def same_top(va, vb):
    """vb as a value of the type of va, where that is another"""
    if va[1] == vb[1]:
        return vb
    return va


def compare(s, a, b, va, vb, opts, what, t=TOP, flt=None,
            alien=False):
    """reports, checked against the model"""
    more = dict(opts, unchanged=True)
    full = diffs(a, b, more, what)
    mo = dict(more, compare_filter=flt) if flt else more
    if alien:
        mo = dict(mo, alien=True)
    agree(s, t, va, vb, mo, full, what + " with unchanged=True")
    got = diffs(a, b, opts, what)
    want = full if opts.get("unchanged") else [
        x for x in full if x[0] != "NO_CHANGE"]
    check(sorted(map(repr, got)) == sorted(map(repr, want)),
          "%s: %s without the unchanged option, %s with it", what,
          short(got), short(full))
    return [x for x in got if x[0] not in ("NO_CHANGE", "MOVED")]


# -- all options together, against the model -------------------------------------
@st.composite
def mixtures(draw):
    s = draw(families())
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    b = a
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(sorted(NOISE) + ["empty", "extra",
                                                    "edit"]))
        if how in NOISE:
            b = noisy(draw, s, TOP, b, NOISE[how], 2)
        elif how == "empty":
            b = empties(draw, s, TOP, b)
        elif how == "extra":
            b = extras(draw, s, TOP, b)
        else:
            b = mutate(s, TOP, b, draw, SCAL)
    return (s, a, same_top(a, b), draw_opts(draw))


def mixture(case, ctx):
    s, va, vb, opts = case
    B = build(s)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    what = "diff of %s with %s (%s)" % (short(a), short(b), opts)
    real = compare(s, a, b, va, vb, opts, what)
    viaopt = reports(diff_iter(a, b, options=DiffOptions(**opts)))
    check(sorted(map(repr, viaopt)) == sorted(map(repr, diffs(
        a, b, opts, what))), "%s: another result with a DiffOptions object",
        what)
    check(lit_eq(B.un(TOP, a), va) and lit_eq(B.un(TOP, b), vb),
          "%s: changed by it", what)
    ctx.hit(va != vb and sum(
        v != (n in ("ignore_ws", "unicode_normal", "fuzzy_match"))
        for n, v in opts.items()) > 1)
    ctx.event("%d differences" % min(len(real), 4))


# -- one kind of difference, one option ------------------------------------------
@st.composite
def singles(draw):
    kind = draw(st.sampled_from(sorted(NOISE) + ["ignore_empty_slots",
                                                 "extraneous"]))
    s = draw(families(ca=False))
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    if kind in NOISE:
        b = noisy(draw, s, TOP, a, NOISE[kind], 1)
    elif kind == "extraneous":
        b = extras(draw, s, TOP, a)
    else:
        b = empties(draw, s, TOP, a)
    opts = draw_opts(draw)
    opts[kind] = draw(st.booleans())
    # (those which drop or join what is compared)
    opts.pop("ignore_empty_items", None)
    opts.pop("unchanged", None)
    opts.pop("moved", None)
    return (s, kind, a, b, opts)


def visible(s, t, a, b):
    """do they differ outside extraneous attributes?"""
    from lib.schema import model_eq
    return not model_eq(s, t, a, b)


def single(case, ctx):
    s, kind, va, vb, opts = case
    B = build(s)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    what = "diff of %s with %s (%s)" % (short(a), short(b), opts)
    got = diffs(a, b, opts, what)
    hidden = opts[kind] if kind != "extraneous" else not opts[kind]
    if hidden:
        check(not got, "%s: they differ in %s only, but %s", what, kind,
              short(got))
    elif kind == "unicode_normal" and opts.get("ignore_case"):
        pass        # (the upper case of a letter may be a decomposed one)
    elif kind == "extraneous":
        pass        # the mixture part tells what exactly is reported
    elif visible(s, TOP, va, vb) and not reordered(va, vb):
        check(got, "%s: they differ in %s, which was to be told, but "
              "nothing is reported", what, kind)
    ctx.hit(va != vb and len(opts) > 1)
    ctx.event("%s %s" % (kind, "hidden" if hidden else "told"))


def reordered(va, vb):
    """could the change have been a permutation of items?"""
    def texts(v):
        if isinstance(v, (tuple, list)):
            return [y for x in v for y in texts(x)]
        if isinstance(v, dict):
            return [y for x in v.values() for y in texts(x)]
        return [v] if isinstance(v, str) else []
    return sorted(texts(va)) == sorted(texts(vb))


def outside(draw, s, t, v, flt):
    """other values for what the filter does not name"""
    if t[0] == "s":
        if (flt is None or not flt.full()) and draw(st.integers(0, 2)):
            return draw(SCAL[t[1]])
        return v
    if flt is not None and flt.full():
        return v
    if t[0] == "r":
        types = {f["n"]: f["t"] for f in s["recs"][v[1]]["fields"]}
        return ("R", v[1], {n: outside(draw, s, types[n], x,
                                       flt and flt.sub(n))
                            for n, x in v[2].items()})
    if t[0] == "l":
        return ("L", [outside(draw, s, t[1], x, flt and flt.sub(i))
                      for i, x in enumerate(v[1])])
    return ("D", {k: outside(draw, s, t[1], x, flt and flt.sub(k))
                  for k, x in v[1].items()})


# -- filters -------------------------------------------------------------------------
@st.composite
def filtered(draw):
    s = draw(families(ca=draw(st.booleans())))
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    b = a
    for _ in range(draw(st.integers(1, 3))):
        b = mutate(s, TOP, b, draw, SCAL)
    paths = [draw_filter(draw, s) for _ in range(draw(st.integers(1, 3)))]
    opts = draw_opts(draw, [n for n in FLAGS if n != "extraneous"])
    return (s, a, same_top(a, b), paths, draw(st.booleans()), opts)


def draw_filter(draw, s, into=False):
    """attribute path through records (and items of collections)"""
    path, t = [], TOP
    while True:
        while into and t[0] in "ld" and draw(st.integers(0, 4)):
            path.append(None if draw(st.integers(0, 2)) else draw(
                st.integers(0, 3) if t[0] == "l" else DKEYS))
            t = t[1]
        if t[0] != "r":
            break
        fields = s["recs"][t[1]]["fields"]
        deep = [f for f in fields if into and (
            f["t"][0] == "r" or f["t"][0] in "ld" and f["t"][1][0] != "s")]
        if deep and draw(st.integers(0, 2)):
            fields = deep
        f = fields[draw(st.integers(0, len(fields) - 1))]
        path.append(f["n"])
        t = f["t"]
        if draw(st.integers(0, 4 if into else 2)) == 0:
            break
    return path


def mixed(paths):
    """all items, and some item, of the same collection"""
    tree = {}
    for p in paths:
        for i, x in enumerate(p):
            tree.setdefault(tuple(p[:i]), set()).add(x)
    return any(None in xs and len(xs) > 1 for xs in tree.values())


@st.composite
def into(draw):
    """filters which tell what to compare of the items"""
    s = draw(families(ca=draw(st.booleans()), kinds="srllldd"))
    given = []
    if draw(st.integers(0, 2)) == 0:
        # (of the attributes which are the key, some or all or no)
        names = "abcd"[:draw(st.integers(2, 4))]
        kind = draw(st.sampled_from("lld"))
        s = {"recs": [{"json": False, "pk": [], "fields": [
            {"n": "items", "t": (kind, ("r", 1), "plain")}]}, {
                "json": False, "pk": list(names[:draw(st.integers(1, 3))]),
                "fields": [{"n": n, "t": ("s", draw(st.sampled_from(
                    ["int", "str"])))} for n in draw(
                        st.permutations(names))]}]}
    elif draw(st.integers(0, 2)) == 0:
        # items which have records and collections, perhaps in their key
        kinds = st.sampled_from(["int", "str"])
        inner = draw(st.sampled_from("rrld"))
        s = {"recs": [{"json": False, "pk": [], "fields": [
            {"n": "items", "t": (draw(st.sampled_from("lld")), ("r", 1),
                                 "plain")}]}, {
                "json": False, "pk": draw(st.sampled_from(
                    [[], ["b"], ["a", "b"]])),
                "fields": [
                    {"n": "a", "t": ("s", draw(kinds))},
                    {"n": "b", "t": ("r", 2) if inner == "r" else (
                        inner, ("r", 2), "plain")},
                    {"n": "c", "t": ("s", draw(kinds))}]}, {
                "json": False, "pk": draw(st.sampled_from(
                    [[], [], ["a"], ["a", "b"]])),
                "fields": [{"n": n, "t": ("s", draw(kinds))}
                           for n in "ab"] + [
                    {"n": "c", "t": draw(st.sampled_from([
                        ("s", "int"), ("s", "str"),
                        ("l", ("s", "str"), "plain"),
                        ("d", ("s", "str"), "plain")]))}]}]}
        for p in draw(st.sampled_from(
                [[], ["b"], ["b"], ["a", "b"], ["b", "c"]])):
            p = ["items", None, p]
            if p[2] == "b":
                if inner != "r" and draw(st.integers(0, 5)):
                    p.append(None if draw(st.integers(0, 2)) == 0 else draw(
                        st.integers(0, 2) if inner == "l" else DKEYS))
                if (inner == "r" or len(p) > 3) and draw(st.integers(0, 3)):
                    p.append(draw(st.sampled_from("abc")))
            given.append(p)
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    paths = list(given)
    for _ in range(draw(st.integers(0 if given else 1, 1 if given else 4))):
        p = draw_filter(draw, s, True)
        if not mixed(paths + [p]):
            paths.append(p)
    b = a
    how = draw(st.integers(0, 2))
    if how:
        b = outside(draw, s, TOP, b, Filter(paths))
    for _ in range(draw(st.integers(1, 3)) if how < 2 else 0):
        b = mutate(s, TOP, b, draw, SCAL)
    if draw(st.integers(0, 2)) == 0:
        b = noisy(draw, s, TOP, b,
                  NOISE[draw(st.sampled_from(sorted(NOISE)))], 1)
    opts = draw_opts(draw, [n for n in FLAGS if n != "extraneous"])
    return (s, a, same_top(a, b), paths, draw(st.booleans()), opts)


def restricted(case, ctx):
    s, va, vb, paths, asmfs, opts = case
    B = build(s)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    what = "diff of %s with %s (%s, filter %s)" % (
        short(a), short(b), opts, paths)
    flt = MultiFieldSelector(*paths) if asmfs else paths
    fopts = dict(opts, compare_filter=flt)
    compare(s, a, b, va, vb, fopts, what, flt=paths)
    got = diffs(a, b, fopts, what)
    ctx.hit(va != vb and any(
        len(p) > 1 and any(not isinstance(x, str) for x in p)
        for p in paths))
    ctx.event("%d reports" % min(len(got), 4))


def overlap(path, flt):
    n = min(len(path), len(flt))
    return list(path[:n]) == list(flt[:n])


def filters(case, ctx):
    s, va, vb, paths, asmfs, opts = case
    B = build(s)
    a, b = B.mk(TOP, va), B.mk(TOP, vb)
    what = "diff of %s with %s (%s, filter %s)" % (
        short(a), short(b), opts, paths)
    flt = MultiFieldSelector(*paths) if asmfs else [
        FieldSelector(p) if i % 2 else p for i, p in enumerate(paths)]
    fopts = dict(opts, compare_filter=flt)
    compare(s, a, b, va, vb, fopts, what, flt=paths)
    got = diffs(a, b, fopts, what)
    # (similar items may be matched otherwise; an attribute set on one side
    # only may count as empty)
    if not (opts.get("fuzzy_match", True) and not opts.get("recurse")) and \
            not opts.get("ignore_empty_slots"):
        every = diffs(a, b, opts, what)
        want = [x for x in every if any(overlap(x[1], p) for p in paths)]
        check(sorted(map(repr, got)) == sorted(map(repr, want)),
              "%s: reported %s, and without the filter %s", what,
              short(got), short(every))
    ctx.hit(va != vb)
    ctx.event("%d reports" % min(len(got), 4))


# -- duck typing ---------------------------------------------------------------------
class Plain(object):
    """an object of another world"""
    def __init__(self, attrs):
        for k, v in attrs.items():
            setattr(self, k, v)


def plain(s, t, v, B):
    if t[0] == "r":
        types = {f["n"]: f["t"] for f in s["recs"][t[1]]["fields"]}
        return Plain({n: plain(s, types[n], x, B)
                      for n, x in v[2].items()})
    if t[0] == "l":
        return [plain(s, t[1], x, B) for x in v[1]]
    if t[0] == "d":
        return {k: plain(s, t[1], x, B) for k, x in v[1].items()}
    return B.mk(t, v)


@st.composite
def ducks(draw):
    s = draw(families(ca=False, nest=False, json=0.2, poly=0.0))
    a = draw(dense(s, scalars=SCAL, keys=DKEYS))
    b = a
    for _ in range(draw(st.integers(0, 2))):
        b = mutate(s, TOP, b, draw, SCAL)
    return (s, a, b, draw(st.sampled_from(["plain", "twin"])),
            draw_opts(draw, [n for n in FLAGS if n != "recurse"]))


_twins = {}


def duck(case, ctx):
    s, va, vb, how, opts = case
    B = build(s)
    opts = dict(opts, duck_type=True)
    a = B.mk(TOP, va)
    if how == "twin":
        key = repr(s)
        if key not in _twins:
            _twins[key] = Built(s)
        b = _twins[key].mk(TOP, vb)
        same = _twins[key].mk(TOP, va)
    else:
        b = plain(s, TOP, vb, B)
        same = plain(s, TOP, va, B)
    what = "diff of %s with %s object %s (%s)" % (
        short(a), how, short(vb), opts)
    got = [x for x in diffs(a, same, opts, what) if x[0] != "NO_CHANGE"]
    check(not got, "%s: the same attribute values, but %s", what, short(got))
    real = compare(s, a, b, va, vb, opts, what, alien=how == "plain")
    if how == "twin":
        try:
            list(diff_iter(a, b, **dict(opts, duck_type=False)))
        except TypeError:
            pass
        else:
            check(False, "%s: compared without duck typing", what)
    ctx.hit()
    ctx.event("%s %d" % (how, min(3, len(real))))


PARTS = [
    Part("mixture", mixtures, mixture, quick=5000),
    Part("single", singles, single, quick=2500),
    Part("filters", filtered, filters, quick=1500),
    Part("restricted", into, restricted, quick=2500),
    Part("duck", ducks, duck, quick=1500),
]
