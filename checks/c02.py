"""C02: type test, then coerce, then check, with the documented errors."""
from hypothesis import strategies as st

import normalize.exc as exc
from lib.decl import (
    Bad, TYPES, UNSET, V, decls, get, is_checked, make_class, make_prop, mat,
    model_accept, typed_values,
)
from lib.harness import Part, Raised, attempt, check, short
from normalize import Property, Record, subtype
from normalize.property.coll import DictProperty, ListProperty

PROPERTY = "C02"
RULE = (
    "A case is one slot declaration (type, type tuple or subtype; default or "
    "custom coerce function incl. raising, None-returning, wrong-type "
    "returning and identity ones; check; required; JSON/extraneous variants) "
    "and one value arriving by constructor keyword, by mapping, by default or "
    "by assignment.  The coerce and check functions are instrumented.  "
    "Non-trivial: the coerce function was due, or the check or the "
    "required-ness decided.")


class Log(object):
    def __init__(self):
        self.coerce = []        # (argument, result or exception)
        self.check = []

    def wrap(self, kind, fn):
        if kind == "coerce":
            def coerce(x):
                try:
                    r = fn(x)
                except Exception as e:
                    self.coerce.append((x, e))
                    raise
                self.coerce.append((x, r))
                return r
            return coerce
        if kind == "check":
            def chk(x):
                self.check.append(x)
                return fn(x)
            return chk
        return fn


@st.composite
def cases(draw):
    d = draw(decls(allow=("required", "check", "coerce", "flavour", "default")))
    how = draw(st.sampled_from(["kw", "map", "set", "set", "default"]))
    if how == "default":
        d.pop("default", None)
    v = draw(st.one_of(typed_values(d.get("isa")), V.any))
    first = draw(typed_values(d.get("isa")))
    return (d, how, v, first)


def verify_pipeline(d, log, value, r, stored, init, ctx, what):
    """d: declaration; r: result of the operation (or Raised); stored: what
    the slot reads afterwards if it did not raise"""
    t = TYPES[d["isa"]] if d.get("isa") else None
    conforming = t is None or isinstance(value, t)
    try:
        want = model_accept(d, value, at_init=init)
        if want is UNSET and d.get("required"):
            raise Bad("required")
        bad = None
    except Bad as e:
        bad = e.kind
    # who is called
    if d.get("coerce"):
        if conforming:
            check(not log.coerce, "%s: coerce called on a value already of "
                  "the type: %r", what, log.coerce)
        elif bad != "required":
            check(len(log.coerce) == 1, "%s: coerce called %d times", what,
                  len(log.coerce))
            check(log.coerce[0][0] is value,
                  "%s: coerce was passed %s", what, short(log.coerce[0][0]))
    ctx.hit(not conforming or bad or d.get("check"))
    ctx.event("%s%s" % ("conforming" if conforming else "coerced",
                        "-" + bad if bad else "-ok"))
    if bad:
        check(isinstance(r, Raised), "%s: accepted, reads %s", what,
              short(stored))
        if bad == "coerce":
            check(isinstance(r.exc, TypeError) and
                  isinstance(r.exc, exc.CoercionError) and
                  not isinstance(r.exc, ValueError),
                  "%s: a coercion error expected, %r", what, r)
            check(not log.check, "%s: check was called with %s although the "
                  "coercion failed", what, short(log.check))
        else:
            check(isinstance(r.exc, ValueError) and
                  not isinstance(r.exc, TypeError),
                  "%s: a ValueError expected, %r", what, r)
            cls = (exc.ValueCheckError if bad == "check" else
                   exc.PropertyRequired)
            check(isinstance(r.exc, cls), "%s: %s expected, %r", what,
                  cls.__name__, r)
        check(isinstance(str(r.exc), str) and isinstance(repr(r.exc), str),
              "%s: error cannot be printed", what)
        return
    check(not isinstance(r, Raised), "%s: unexpectedly %r", what, r)
    if want is UNSET:
        check(stored is UNSET, "%s: slot should be unset, reads %s", what,
              short(stored))
        return
    if conforming:
        check(stored is value, "%s: stored %s, not the very object given",
              what, short(stored))
    elif d.get("coerce"):
        check(stored is log.coerce[0][1],
              "%s: stored %s, not what coerce returned", what, short(stored))
    else:
        check(type(stored) is type(want) and stored == want,
              "%s: stored %s, expected %s", what, short(stored), short(want))
    if t is not None:
        check(isinstance(stored, t), "%s: stored a %s", what, type(stored))
    if d.get("check"):
        check(log.check and all(x is stored for x in log.check),
              "%s: check was called with %s, stored %s", what,
              short(log.check), short(stored))


def run_pipeline(case, ctx):
    d, how, v, first = case
    value = mat(v)
    log = Log()
    what = "%r %s %s" % (d, how, short(value))
    if how == "default":
        d2 = dict(d)
        prop = None

        def dflt():
            return value
        from lib.decl import SafeProperty, prop_kwargs
        cls_ = SafeProperty if d.get("flavour") == "safeclass" else Property
        prop = cls_(default=dflt, **prop_kwargs(d2, log.wrap))
        cls = make_class({"s": prop})
        r = attempt(cls)
        verify_pipeline(d, log, value, r,
                        None if isinstance(r, Raised) else get(r, "s"),
                        True, ctx, what)
        return
    cls = make_class({"s": make_prop(d, log.wrap), "z": Property(isa=int)})
    if how in ("kw", "map"):
        r = attempt(lambda: cls(s=value) if how == "kw" else
                    cls({"s": value}))
        verify_pipeline(d, log, value, r,
                        None if isinstance(r, Raised) else get(r, "s"),
                        True, ctx, what)
        return
    if not is_checked(d):
        return
    # assignment over an existing value, or over an unset slot
    rec = attempt(lambda: cls(s=mat(first), z=3))
    if isinstance(rec, Raised):
        if d.get("required"):
            return
        rec = attempt(lambda: cls(z=3))
        if isinstance(rec, Raised):
            return      # its default is not acceptable
    before = get(rec, "s")
    del log.coerce[:], log.check[:]
    r = attempt(setattr, rec, "s", value)
    after = get(rec, "s")
    verify_pipeline(d, log, value, r, after, False, ctx, what)
    if isinstance(r, Raised):
        check(after is before, "%s: rejected, but the slot changed from %s "
              "to %s", what, short(before), short(after))
    check(rec.z == 3, "another slot changed")


# -- default coerce: the declared class itself ------------------------------
class Point(object):
    made = []

    def __init__(self, x):
        Point.made.append(x)
        if x == "bad":
            raise LookupError(x)
        self.x = x


class Point3(Point):
    def __init__(self, x, y, z):
        self.x = (x, y, z)


@st.composite
def ctor_cases(draw):
    return (draw(st.sampled_from(["single", "tuple", "tuplec", "sub",
                                  "subsub"])),
            draw(st.sampled_from(["kw", "set"])),
            draw(st.booleans()),
            draw(st.sampled_from(["point", "point3", "bad", 5, None, "ok",
                                  (1, 2), -1])))


def run_ctor(case, ctx):
    kind, how, required, v = case
    calls = []

    def sub_coerce(x):
        calls.append(x)
        if x is None:
            return None
        if x == "bad":
            raise LookupError(x)
        if x == -1:
            return "not a point"
        return Point(x)

    if kind == "single":
        isa = Point
    elif kind == "tuple":
        isa = (Point, dict)
    elif kind == "tuplec":
        isa = (int, Point)
    else:
        isa = subtype("PosPoint", of=Point, where=lambda p: p.x != 5,
                      coerce=sub_coerce)
        if kind == "subsub":
            inner = isa
            isa = subtype("PosPoint2", of=inner, where=lambda p: p.x != "ok",
                          coerce=sub_coerce)
    kw = {"isa": isa, "required": required}
    if kind == "tuplec":
        kw["coerce"] = sub_coerce
    cls = make_class({"s": Property(**kw)})
    value = {"point": lambda: Point(1),
             "point3": lambda: Point3(1, 2, 3)}.get(v, lambda: v)()
    del Point.made[:]
    if how == "kw":
        r = attempt(lambda: cls(s=value))
        rec = r
    else:
        rec = cls(s=Point(2))
        del Point.made[:]
        r = attempt(setattr, rec, "s", value)
    stored = None if isinstance(r, Raised) else get(rec, "s")
    what = "%r" % (case,)
    is_point = isinstance(value, Point)
    if is_point or (kind == "tuplec" and isinstance(value, int)):
        check(not isinstance(r, Raised), "%s: unexpectedly %r", what, r)
        check(stored is value, "%s: not stored as is", what)
        check(not calls and not Point.made, "%s: constructor/coerce called "
              "needlessly", what)
        return
    ctx.hit()
    none_ok = how == "kw" and not required
    if kind == "single":
        bad = v == "bad"
        check(Point.made == [value], "%s: constructor calls %r", what,
              Point.made)
    elif kind == "tuple":
        bad = True
    else:
        bad = v in ("bad", -1, None) or (kind in ("sub", "subsub") and
                                         v == 5) or (
            kind == "subsub" and v == "ok")
        check(calls == [value], "%s: coerce calls %r", what, calls)
        if v is None and none_ok:
            check(stored is UNSET, "%s: None coercion at construction should "
                  "leave the slot unset, %s", what, short(r))
            return
    if bad:
        check(isinstance(r, Raised), "%s: accepted", what)
        check(isinstance(r.exc, exc.CoercionError) and
              isinstance(r.exc, TypeError), "%s: %r", what, r)
        if how == "set":
            check(rec.s.x == 2, "%s: slot changed", what)
    else:
        check(not isinstance(r, Raised), "%s: unexpectedly %r", what, r)
        check(type(stored) is Point and stored.x == value, "%s: stored %s",
              what, short(stored))


# -- collection slots --------------------------------------------------------
@st.composite
def coll_cases(draw):
    items = draw(st.lists(st.sampled_from(
        [0, 1, 7, -2, "3", "x", None, 2.5, b"9"]), max_size=4))
    if draw(st.booleans()):
        items = [x for x in items if x not in ("x", None)]
    return (draw(st.sampled_from(["list", "dict"])),
            draw(st.sampled_from(["kw", "set"])),
            draw(st.sampled_from(["native", "typed", "gen", "str", "int"])),
            items, draw(st.sampled_from([None, "nonempty", "short"])))


def run_collslot(case, ctx):
    kind, how, form, items, chk = case
    seen = []

    def checkfn(c):
        seen.append(c)
        return len(c) > 0 if chk == "nonempty" else len(c) < 3
    kw = {"of": int}
    if chk:
        kw["check"] = checkfn
    cls = make_class({
        "s": (ListProperty if kind == "list" else DictProperty)(**kw)})
    ctype = cls.properties["s"].valuetype
    bad_item = any(x in ("x", None) for x in items)
    if form == "typed":
        items = [x for x in items if isinstance(x, int)]
        bad_item = False
        value = ctype(items if kind == "list" else dict(enumerate(items)))
    elif form == "native":
        value = list(items) if kind == "list" else dict(enumerate(items))
    elif form == "gen":
        value = iter(list(items)) if kind == "list" else iter(
            list(enumerate(items)))
    elif form == "str":
        value, bad_item = "abc", True
    else:
        if kind == "dict":
            return      # what a dict of int(5) would be is not documented
        value, bad_item = 5, True
    if form in ("str", "int"):
        items = []
    if how == "kw":
        rec = r = attempt(lambda: cls(s=value))
    else:
        rec = cls()
        r = attempt(setattr, rec, "s", value)
    what = "%r" % (case,)
    bad_check = chk and not (
        len(items) > 0 if chk == "nonempty" else len(items) < 3)
    ctx.hit(bad_item or bad_check or form != "typed")
    if bad_item:
        check(isinstance(r, Raised) and isinstance(
            r.exc, exc.CoercionError) and isinstance(r.exc, TypeError),
            "%s: coercion error expected, %r", what, r)
    elif bad_check:
        check(isinstance(r, Raised) and isinstance(r.exc, ValueError),
              "%s: ValueError expected, %r", what, r)
    if bad_item or bad_check:
        if how == "set":
            check(get(rec, "s") is UNSET, "%s: slot changed", what)
        return
    check(not isinstance(r, Raised), "%s: unexpectedly %r", what, r)
    stored = rec.s
    check(isinstance(stored, ctype), "%s: stored %s", what, type(stored))
    if form == "typed":
        check(stored is value, "%s: not stored as is", what)
    got = [v for k, v in stored.itertuples()]
    check(got == [int(x) for x in items], "%s: holds %r", what, got)
    if chk:
        check(seen and all(x is stored for x in seen),
              "%s: check saw %s", what, short(seen))


PARTS = [
    Part("pipeline", cases, run_pipeline, quick=6000, thorough=150000),
    Part("constructor", ctor_cases, run_ctor, quick=400, thorough=1500),
    Part("collection", coll_cases, run_collslot, quick=800, thorough=20000),
]
