"""C04: construction from keywords and mappings; inheritance."""
import collections
import types

from hypothesis import strategies as st

from lib.decl import (
    Bad, ERRORS, UNSET, V, decls, equal_value, get, is_checked, make_class,
    make_prop, mat, model_accept, typed_values,
)
from lib.harness import (
    Part, Raised, attempt, check, must_raise, raised, short,
)
import normalize.exc as exc
from normalize import JsonRecord, Property, Record
from normalize.coll import ListCollection

PROPERTY = "C04"
RULE = (
    "A case is a generated inheritance chain of record types (1-3 levels, "
    "optionally a second base, slots overridden in subclasses) with "
    "type/coerce/check/required/default declarations, and several sets of "
    "initialisers (known and unknown names, legal and illegal values) for "
    "each level.  Non-trivial: at least one construction succeeded, and one was "
    "rejected or left some slot unset and some set.")

NAMES = ["p0", "p1", "p2", "p3", "q0", "q1"]


@st.composite
def chains(draw):
    nlev = draw(st.integers(1, 3))
    levels = []
    for k in range(nlev):
        names = draw(st.lists(st.sampled_from(NAMES[:4]), min_size=(k == 0),
                              max_size=3, unique=True))
        levels.append({n: draw(decls()) for n in names})
    mixin = {n: draw(decls()) for n in draw(st.lists(
        st.sampled_from(NAMES[4:]), max_size=2, unique=True))}
    json = draw(st.sampled_from(["", "", "", "json"]))
    sets = []
    for _ in range(draw(st.integers(1, 4))):
        lev = draw(st.integers(0, nlev - 1))
        eff = effective(levels, mixin, lev)
        init = []
        tame = draw(st.integers(0, 3))
        for n in draw(st.permutations(NAMES)):
            d = eff.get(n)
            if d is None:
                if not tame and draw(st.integers(0, 9)) == 0:
                    init.append((n, draw(V.scalars)))
                continue
            if draw(st.integers(0, 5 if d.get("required") else 1)):
                v = draw(typed_values(d.get("isa")) if tame or draw(
                    st.booleans()) else V.any)
                if tame and not legal(d, v):
                    v = draw(typed_values(d.get("isa")))
                    if not legal(d, v):
                        d.pop("check", None)
                        d.pop("coerce", None)
                        if not legal(d, v):
                            continue
                init.append((n, v))
        if tame:
            for d in eff.values():
                if "default" in d and not legal(d, d["default"][1]):
                    del d["default"]
        if draw(st.integers(0, 19)) == 0:
            init.append((draw(st.sampled_from(
                ["zz", "P0", "p0_", "values", "_p0", "p00", "properties",
                 "primary_key", "init_dict_"])), 1))
        sets.append((lev, init))
    return (levels, mixin, json, sets)


def legal(d, v):
    try:
        return model_accept(d, mat(v), at_init=True) is not UNSET or \
            not d.get("required")
    except Bad:
        return False


def effective(levels, mixin, lev):
    eff = dict(mixin) if lev == len(levels) - 1 and lev else {}
    for k in range(lev + 1):
        eff.update(levels[k])
    return eff


def expected(eff, init):
    """-> (state, faults); a fault is an exception class or a tuple"""
    state, faults = {}, []
    for n, v in init:
        if n not in eff:
            faults.append(exc.PropertyNotKnown)
    given = dict(init)
    for n, d in eff.items():
        try:
            if n in given:
                v = model_accept(d, mat(given[n]), at_init=True)
            elif "default" in d:
                v = model_accept(d, mat(d["default"][1]), at_init=True)
            else:
                v = UNSET
            if v is UNSET and d.get("required"):
                raise Bad("required")
            state[n] = v
        except Bad as e:
            faults.append(ERRORS[e.kind])
    return state, faults


def verify(cls, rec, eff, state, what):
    check(type(rec) is cls, "%s made a %s", what, type(rec).__name__)
    for n in eff:
        got = get(rec, n)
        check(equal_value(got, state[n]), "%s: %s is %s, expected %s", what,
              n, short(got), short(state[n]))
        check(hasattr(rec, n) is (state[n] is not UNSET),
              "%s: hasattr(%s) is wrong", what, n)
        if state[n] is UNSET:
            must_raise(AttributeError, lambda: getattr(rec, n),
                       "%s: reading unset %s" % (what, n))


def run(case, ctx):
    levels, mixin, json, sets = case
    base = JsonRecord if json else Record
    classes = []
    mix = make_class({n: make_prop(d) for n, d in mixin.items()}, Record)
    for k, lev in enumerate(levels):
        props = {n: make_prop(d) for n, d in lev.items()}
        bases = (classes[-1] if classes else base,)
        if k and k == len(levels) - 1 and mixin:
            bases += (mix,)
        ns = dict(props, __module__=__name__)
        classes.append(type(Record)("K%d" % k, bases, ns))
    ok = bad = 0
    partial = False
    for lev, init in sets:
        cls = classes[lev]
        eff = effective(levels, mixin, lev)
        check(set(eff) == set(cls.properties) - {"unknown_json_keys"},
              "properties of %s: %s, expected %s", cls.__name__,
              sorted(cls.properties), sorted(eff))
        state, faults = expected(eff, init)
        kw = attempt(lambda: cls(**{n: mat(v) for n, v in init}))
        forms = [("keywords", kw)]
        if not json:
            for nm, mk in (("dict", dict), ("OrderedDict",
                                            collections.OrderedDict),
                           ("mapping", lambda x: types.MappingProxyType(
                               dict(x)))):
                src = mk((n, mat(v)) for n, v in init)
                before = list(src.items())
                forms.append((nm, attempt(lambda: cls(src))))
                check([a for a, _ in src.items()] == [a for a, _ in before] and
                      all(x is y for (_, x), (_, y) in zip(
                          src.items(), before)),
                      "construction changed the mapping %s", short(src))
            forms.append(("init_dict=", attempt(
                lambda: cls(init_dict={n: mat(v) for n, v in init}))))
        for nm, r in forms:
            what = "%s from %s %s" % (cls.__name__, nm, short(init))
            if faults:
                check(isinstance(r, Raised), "%s: made %s, expected %s",
                      what, short(r), [f.__name__ for f in faults])
                check(any(isinstance(r.exc, f) for f in faults),
                      "%s: %r, expected %s", what, r,
                      [f.__name__ for f in faults])
                check(type(r.exc) is type(kw.exc),
                      "%s: %r, but the keyword form %r", what, r, kw)
            else:
                check(not isinstance(r, Raised), "%s: %r", what, r)
                verify(cls, r, eff, state, what)
                for n in eff:
                    x = state[n]
                    if isinstance(x, (list, dict)) and n not in dict(init) \
                            and eff[n]["default"][0] != "val" and r is not kw:
                        check(getattr(r, n) is not getattr(kw, n),
                              "%s: two records share the default of %s",
                              what, n)
                check(r == kw and not (r != kw),
                      "%s: differs from the keyword form: %s and %s",
                      what, short(r), short(kw))
        if faults:
            bad += 1
        else:
            ok += 1
            vals = list(state.values())
            if UNSET in [x if x is UNSET else 0 for x in vals] and any(
                    x is not UNSET for x in vals):
                partial = True
        if init and not json:
            r = attempt(lambda: cls({n: mat(v) for n, v in init[:1]},
                                    **{n: mat(v) for n, v in init}))
            check(isinstance(r, Raised),
                  "both a mapping and keywords accepted: %s", short(r))
        if not faults:
            # an empty mapping together with keywords is like keywords
            r = attempt(lambda: cls(
                {}, **{n: mat(v) for n, v in init})) if not json else kw
            check(not isinstance(r, Raised), "empty mapping and keywords: %r",
                  r)
            verify(cls, r, eff, state, "empty mapping and keywords")
            # extra name
            for extra in ("nope", "p", "q", "_"):
                r = attempt(lambda: cls(**dict(
                    {n: mat(v) for n, v in init}, **{extra: None})))
                check(raised(r, exc.PropertyNotKnown),
                      "unknown keyword %r: %s", extra, short(r))
                if not json:
                    r = attempt(lambda: cls(dict(
                        {n: mat(v) for n, v in init}, **{extra: None})))
                    check(raised(r, exc.PropertyNotKnown),
                          "unknown name %r in mapping: %s", extra, short(r))
            # the inherited slots keep their behaviour on assignment
            for n, d in eff.items():
                v = dict(init).get(n, 3)
                try:
                    want = model_accept(d, mat(v)) if is_checked(d) \
                        else mat(v)
                except Bad:
                    want = Bad
                r = attempt(lambda: setattr(kw, n, mat(v)))
                if want is Bad:
                    check(isinstance(r, Raised), "assigning %s to %s.%s of a "
                          "subclass accepted", short(v), cls.__name__, n)
                else:
                    check(not isinstance(r, Raised), "assigning %s to %s.%s: "
                          "%r", short(v), cls.__name__, n, r)
                    check(equal_value(get(kw, n), want),
                          "after assigning %s to %s: %s", short(v), n,
                          short(get(kw, n)))
    ctx.hit(ok and (bad or partial))
    ctx.event("levels %d ok %d bad %d" % (len(levels), min(ok, 2),
                                          min(bad, 2)))


# -- declarations the metaclass must refuse or combine -------------------------
@st.composite
def combos(draw):
    a = {n: draw(st.sampled_from(["int", "str"])) for n in draw(
        st.lists(st.sampled_from(["a", "b", "ab", "c"]), max_size=3, unique=True))}
    b = {n: draw(st.sampled_from(["int", "str"])) for n in draw(
        st.lists(st.sampled_from(["c", "d", "e", "ed"]), max_size=3, unique=True))}
    own = {n: draw(st.sampled_from(["int", "str"])) for n in draw(
        st.lists(st.sampled_from(["a", "c", "e", "f"]), max_size=3,
                 unique=True))}
    if draw(st.integers(0, 3)):
        b.pop("c", None)
    names = sorted(set(a) | set(b) | set(own))
    if not names or draw(st.integers(0, 5)) == 0:
        names.append("g")
    pk = draw(st.lists(st.sampled_from(names), max_size=2, unique=True))
    return (a, b, own, pk, draw(st.booleans()))


def combine(case, ctx):
    a, b, own, pk, byname = case
    T = {"int": int, "str": str}

    def props(d):
        return {n: Property(isa=T[t]) for n, t in d.items()}
    A = make_class(props(a))
    B = make_class(props(b))
    mine = props(own)
    eff = dict(a)
    eff.update(b)
    eff.update(own)
    clash = set(a) & set(b)
    allprops = dict(A.properties)
    allprops.update(B.properties)
    allprops.update(mine)
    ns = dict(mine, __module__=__name__)
    bad_pk = [n for n in pk if n not in eff]
    if pk:
        ns["primary_key"] = [
            n if byname or n in bad_pk else allprops[n] for n in pk]
    r = attempt(lambda: type(Record)("C", (A, B), ns))
    if clash or bad_pk:
        check(isinstance(r, Raised), "declaration accepted: clash %s, bad "
              "primary key %s", clash, bad_pk)
        ctx.event("refused")
        return
    check(not isinstance(r, Raised), "declaration refused: %r", r)
    check({n: p.valuetype for n, p in r.properties.items()} ==
          {n: T[t] for n, t in eff.items()}, "properties of C: %s",
          short(r.properties))
    check([p.name for p in r.primary_key] == list(pk), "primary key %s",
          short(r.primary_key))
    # bases are as before
    for cls, decl in ((A, a), (B, b)):
        check({n: p.valuetype for n, p in cls.properties.items()} ==
              {n: T[t] for n, t in decl.items()}, "base changed: %s",
              short(cls.properties))
    x = r(**{n: T[t]("7") for n, t in eff.items()})
    for n, t in eff.items():
        check(get(x, n) == T[t]("7"), "%s is %s", n, short(get(x, n)))
        bad = attempt(lambda: setattr(x, n, "x"))
        check(isinstance(bad, Raised) is (t == "int"),
              "assigning text to %s slot %s: %r", t, n, bad)
    ctx.hit(bool(own) and bool(a) and bool(b))


PARTS = [
    Part("construct", chains, run, quick=1800),
    Part("combine", combos, combine, quick=600),
]
