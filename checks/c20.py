"""C20: subtypes and ready-made typed properties accept exactly their value
sets."""
import datetime
import decimal
import fractions
import itertools
import json
import numbers

from hypothesis import strategies as st

import normalize.exc as exc
from lib.harness import Part, Raised, attempt, check, short
from normalize import JsonRecord, Property, Record, from_json, to_json
from normalize.coll import DictCollection, ListCollection
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.types import (
    DateProperty, DatetimeProperty, FloatProperty, IntegerProperty,
    IntProperty, LongProperty, NumberProperty, StringProperty,
    UnicodeProperty,
)
from normalize.subtype import subtype

PROPERTY = "C20"
RULE = (
    "Three kinds of case: a chain of subtypes (generated conditions, some of "
    "which raise, over built-in types, a class, a record type or a type with "
    "its own metaclass; coerce functions that return legal, illegal or no "
    "values or raise) probed with values through isinstance, calls, "
    "properties and collections; values and texts given to every ready-made "
    "typed property by construction, assignment and JSON; dates, datetimes "
    "and numbers written as text in several forms and read back.  "
    "Non-trivial: the value decides between levels of a chain, or is not of "
    "the property's type.")

D, T = datetime.date, datetime.datetime
_n = itertools.count()


# -- values (literals) --------------------------------------------------------
class Dated(object):
    def __init__(self, x):
        self.x = x

    def date(self):
        return self.x


class MyDate(D):
    pass


class MyTime(T):
    pass


class MyInt(int):
    pass


class MyStr(str):
    pass


class Plain(object):
    pass


class Sub(Plain):
    pass


def real(v):
    """("tag", ...) -> a value; anything else is itself"""
    if not (isinstance(v, tuple) and v and isinstance(v[0], str)):
        return v
    k, a = v[0], v[1:]
    return {
        "date": lambda: D(*a), "datetime": lambda: T(*a),
        "mytime": lambda: MyTime(*a), "aware": lambda: T(
            *a[1:], tzinfo=datetime.timezone(datetime.timedelta(hours=a[0]))),
        "mydate": lambda: MyDate(*a), "dec": lambda: decimal.Decimal(a[0]),
        "frac": lambda: fractions.Fraction(*a), "complex": lambda:
        complex(*a), "myint": lambda: MyInt(a[0]), "mystr": lambda:
        MyStr(a[0]), "dated": lambda: Dated(real(a[0])),
        "time": lambda: datetime.time(*a), "plain": Plain, "sub": Sub,
        "float": lambda: float(a[0]), "bytes": lambda: a[0],
        "type": lambda: int, "rec": lambda: Rec(**a[0]),
        "sub rec": lambda: SubRec(**a[0]), "tuple": lambda: a[0],
    }[k]()


class Rec(Record):
    x = IntProperty()


class SubRec(Rec):
    y = IntProperty(default=2)


def ymd(lo=1):
    return st.dates(min_value=D(lo, 1, 1)).map(
        lambda d: (d.year, d.month, d.day))


def ymdhms():
    return st.datetimes().map(lambda t: (
        t.year, t.month, t.day, t.hour, t.minute, t.second))


ints = st.one_of(st.integers(-5, 12), st.integers())
texts = st.one_of(
    st.sampled_from(["", " ", "0", "00", "-1", "+7", " 12 ", "1_000", "1e3",
                     "1.5", ".5", "5.", "inf", "nan", "-0", "0x10", "\u0663",
                     "1,000", "x", "\xbd", "1 2", "True", "None", "--1",
                     "2004-05-06", "2004-05-06T07:08", "12345678901234567890",
                     "9" * 30, "0.1000000000000000055511151231257827"]),
    st.integers().map(str), st.floats().map(repr),
    st.text(max_size=6),
    st.text("0123456789-+T: .Ze_", max_size=20),
)
SCALARS = st.one_of(
    ints, texts, st.booleans(), st.none(),
    st.floats().map(lambda x: ("float", repr(x))),
    st.floats(-10, 10, width=16).map(lambda x: ("float", repr(x))),
)
ANY = st.one_of(
    SCALARS, SCALARS,
    st.tuples(st.just("dec"), st.sampled_from(
        ["1", "1.5", "NaN", "Infinity", "-2e3", "sNaN"])),
    st.tuples(st.just("frac"), st.integers(-9, 9), st.integers(1, 5)),
    st.tuples(st.just("complex"), st.integers(0, 3), st.integers(0, 3)),
    ymd().map(lambda a: ("date",) + a), ymd().map(lambda a: ("mydate",) + a),
    ymdhms().map(lambda a: ("datetime",) + a),
    ymdhms().map(lambda a: ("mytime",) + a),
    st.tuples(st.integers(-12, 14), ymdhms()).map(
        lambda a: ("aware", a[0]) + a[1]),
    ymdhms().flatmap(lambda a: st.integers(0, 999999).map(
        lambda us: ("datetime",) + a + (us,))),
    st.tuples(st.just("dated"), st.one_of(
        ymd().map(lambda a: ("date",) + a), st.just(5),
        ymdhms().map(lambda a: ("mytime",) + a),
        ymdhms().map(lambda a: ("datetime",) + a))),
    st.integers(-3, 9).map(lambda x: ("myint", x)),
    texts.map(lambda x: ("mystr", x)),
    st.sampled_from([("plain",), ("sub",), ("type",), ("bytes", b"12"),
                     ("bytes", b"x"), ("time", 1, 2), ("tuple", (1, 2))]),
    st.lists(st.integers(0, 3), max_size=3),
    st.dictionaries(st.sampled_from("ab"), st.integers(0, 3), max_size=2),
)


def same_value(a, b):
    """equal, of the same type (nan equals nan)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, Metad):
        return same_value(a.n, b.n)
    return a is b or a == b or (a != a and b != b) or repr(a) == repr(b)


# -- subtypes -----------------------------------------------------------------
class Meta(type):
    pass


class Metad(metaclass=Meta):
    def __init__(self, n):
        self.n = n


BASES = {"int": int, "str": str, "float": float, "list": list, "object":
         object, "plain": Plain, "date": D, "rec": Rec, "bool": bool,
         "metad": Metad, "number": numbers.Number}


class Fault(Exception):
    pass


class Odd(BaseException):
    pass


def cond(c, x):
    k = c[0]
    if k == "all":
        return True
    if k == "none":
        return False
    if k == "mod":
        return x % c[1] == c[2]
    if k == "gt":
        return x > c[1]
    if k == "len":
        return len(x) <= c[1]
    if k == "first":
        return x[0]
    if k == "attr":
        return x.x == c[1]
    if k == "truthy":
        return x            # not a bool
    if k == "raise":
        raise Fault("condition")
    if k == "not":
        return not cond(c[1], x)
    if k == "isa":
        return isinstance(x, BASES[c[1]])
    raise AssertionError(k)


def holds(c, x):
    try:
        return bool(cond(c, x))
    except Exception:
        return False


conds = st.recursive(st.one_of(
    st.sampled_from([("all",), ("none",), ("first",), ("truthy",),
                     ("raise",)]),
    st.tuples(st.just("mod"), st.integers(2, 3), st.integers(0, 1)),
    st.tuples(st.just("gt"), st.integers(-3, 6)),
    st.tuples(st.just("len"), st.integers(0, 4)),
    st.tuples(st.just("attr"), st.integers(0, 3)),
    st.tuples(st.just("isa"), st.sampled_from(["int", "str", "bool"])),
), lambda c: st.tuples(st.just("not"), c), max_leaves=2)

_mod = st.tuples(st.just("mod"), st.integers(2, 3), st.integers(0, 1))
_gt = st.tuples(st.just("gt"), st.integers(-3, 3))
_len = st.tuples(st.just("len"), st.integers(0, 4))
_isa = st.tuples(st.just("isa"), st.sampled_from(["int", "str", "bool"]))
_not = lambda s: s.map(lambda c: ("not", c))
FITTING = {
    "int": [_mod, _gt, _not(_mod), _not(_gt), _isa], "number": [_mod, _gt],
    "float": [_gt, _not(_gt), _mod], "bool": [st.just(("truthy",))],
    "str": [_len, st.just(("first",)), _not(_len), st.just(("truthy",))],
    "list": [_len, st.just(("first",)), _not(_len), st.just(("truthy",))],
    "object": [_isa, _not(_isa), _gt],
    "plain": [_not(_isa)], "date": [st.just(("all",))],
    "rec": [st.tuples(st.just("attr"), st.integers(0, 3)),
            _not(st.tuples(st.just("attr"), st.integers(0, 3)))],
}

coerces = st.one_of(
    st.none(), st.none(),
    st.tuples(st.just("const"), SCALARS),
    st.sampled_from([("raise",), ("odd",), ("base",), ("neg",), ("same",),
                     ("none",)]))


def coerce_fn(c, base):
    k = c[0]

    def coerce(x):
        if k == "const":
            return real(c[1])
        if k == "raise":
            raise Fault("coerce")
        if k == "odd":
            raise ValueError("coerce", x)
        if k == "base":
            return base(x)
        if k == "neg":
            return -x
        if k == "same":
            return x
        return None
    return coerce


HITS = {
    "int": ints | st.booleans() | st.integers(-3, 9).map(
        lambda x: ("myint", x)),
    "str": texts | texts.map(lambda x: ("mystr", x)),
    "float": st.floats(-9, 9, width=16).map(lambda x: ("float", repr(x))),
    "list": st.lists(st.integers(0, 3), max_size=6),
    "plain": st.sampled_from([("plain",), ("sub",)]),
    "date": ymd().map(lambda a: ("date",) + a) | ymdhms().map(
        lambda a: ("datetime",) + a),
    "rec": st.integers(0, 3).flatmap(lambda x: st.sampled_from(
        [("rec", {"x": x}), ("sub rec", {"x": x}), ("rec", {})])),
    "bool": st.booleans(), "number": ints, "object": ints, "metad": ints,
}


@st.composite
def chains(draw):
    base = draw(st.sampled_from(["int", "int", "str", "str", "float", "list",
                                 "object", "plain", "date", "rec", "bool",
                                 "metad", "number"]))
    if base == "bool":
        base = "int"        # bool can't be derived from
    mine = st.one_of(*[conds] + FITTING.get(base, []) * 2)
    levels = [(draw(mine), draw(coerces))
              for _ in range(draw(st.integers(1, 4)))]
    values = draw(st.lists(ANY | HITS[base] | HITS[base], min_size=3,
                           max_size=6))
    return {"base": base, "levels": levels, "values": values}


def chain(case, ctx):
    base = BASES[case["base"]]
    types = []
    of = base
    for c, co in case["levels"]:
        n = next(_n)
        where = (lambda c: lambda x: cond(c, x))(c)
        of = subtype("S%d" % n, of=of, where=where, **(
            {} if co is None else {"coerce": coerce_fn(co, base)}))
        types.append(of)
    values = [(v, real(v)) for v in case["values"]]

    def member(i, x):
        return isinstance(x, base) and all(
            holds(c, x) for c, _ in case["levels"][:i + 1])

    for i, S in enumerate(types):
        for lit, x in values:
            want = member(i, x)
            got = isinstance(x, S)
            check(got is want, "%r: isinstance of level %d is %r", lit, i,
                  got)
            if want != (member(i - 1, x) if i else isinstance(x, base)):
                ctx.hit()
            # tuples of types
            check(isinstance(x, (S, dict)) is (want or isinstance(x, dict)),
                  "%r: isinstance of level %d in a tuple", lit, i)
            # calls
            co = case["levels"][i][1]
            r = attempt(S, x)
            kind, y = expected(co, base, x, want, lambda z: member(i, z))
            if kind == "ok":
                check(not isinstance(r, Raised), "%r: calling level %d: %r",
                      lit, i, r)
                check(r is y or co is not None and not want and
                      same_value(r, y),
                      "%r: calling level %d gives %s", lit, i, short(r))
                ctx.event("conforms" if want else "coerced")
            else:
                cls = {"nocoerce": exc.SubtypeNoCoerceFunc,
                       "bad": exc.SubtypeCoerceError,
                       "raised": type(y)}[kind]
                check(isinstance(r, Raised) and isinstance(r.exc, cls),
                      "%r: calling level %d: %s expected, %s", lit, i,
                      cls.__name__, short(r))
                ctx.event(kind)
    use(case, types[-1], values, base, lambda x: member(
        len(types) - 1, x), case["levels"][-1][1])


def expected(co, base, x, conforms, member):
    """what calling a subtype does: ("ok", value), ("nocoerce", None),
    ("bad", coerced), ("raised", exception)"""
    if conforms:
        return "ok", x
    if co is None:
        return "nocoerce", None
    try:
        y = coerce_fn(co, base)(x)
    except Exception as e:
        return "raised", e
    return ("ok", y) if member(y) else ("bad", y)


def use(case, S, values, base, member, co):
    """as the type of a property and of items"""
    class R(Record):
        p = Property(isa=S)
        q = Property(isa=(S, dict), coerce=lambda x: {"got": 1})
        l = ListProperty(of=S)
        d = DictProperty(of=S)

    rec = R()
    held = None
    for lit, x in values:
        kind, y = expected(co, base, x, member(x), member)
        r = attempt(R, p=x)
        if kind == "bad" and y is None:
            # coerce functions may swallow values of optional attributes
            check(not isinstance(r, Raised) and not hasattr(r, "p"),
                  "%r: R(p=) is %s", lit, short(r))
        else:
            outcome(r, lambda r: r.p, kind, x, y, lit, "R(p=)")
        r = attempt(setattr, rec, "p", x)
        outcome(r, lambda r: rec.p, kind, x, y, lit, "rec.p =")
        if kind == "ok":
            held = (rec.p,)
        else:
            check((rec.__dict__["p"] is held[0]) if held else
                  "p" not in rec.__dict__, "%r: refused, but p changed to %s",
                  lit, short(rec.__dict__.get("p")))
        r = attempt(R, q=x)
        check(not isinstance(r, Raised), "%r: R(q=): %r", lit, r)
        if member(x) or isinstance(x, dict):
            check(r.q is x, "%r: R(q=) holds %s", lit, short(r.q))
        else:
            check(r.q == {"got": 1}, "%r: R(q=) holds %s", lit, short(r.q))
        r = attempt(R, l=[x])
        outcome(r, lambda r: r.l[0], kind, x, y, lit, "R(l=[])")
        r = attempt(R, d={"k": x})
        outcome(r, lambda r: r.d["k"], kind, x, y, lit, "R(d={})")
        if kind != "raised":
            lst = R(l=[]).l
            r = attempt(lst.append, x)
            outcome(r, lambda r: lst[0], kind, x, y, lit, "append")
            check(kind == "ok" or len(lst) == 0, "%r: refused by append, but "
                  "there", lit)


def outcome(r, read, kind, x, y, lit, what):
    if kind == "ok":
        check(not isinstance(r, Raised), "%r: %s %r", lit, what, r)
        got = read(r)
        check(got is y or same_value(got, y), "%r: %s holds %s", lit, what,
              short(got))
    else:
        check(isinstance(r, Raised) and isinstance(
            r.exc, exc.CoercionError), "%r: %s: %s", lit, what, short(r))


# -- ready-made properties -----------------------------------------------------
class Typed(JsonRecord):
    int = IntProperty()
    long = LongProperty()
    integer = IntegerProperty()
    number = NumberProperty()
    float = FloatProperty()
    str = StringProperty()
    text = UnicodeProperty()
    date = DateProperty()
    datetime = DatetimeProperty()


class Checked(JsonRecord):
    """the same through other declarations"""
    int = IntProperty(json_name="i", required=False)
    long = LongProperty(extraneous=True)
    integer = IntegerProperty(check=lambda x: True)
    number = NumberProperty(lazy=True, default=lambda: 1)
    float = FloatProperty(default=0.5)
    str = StringProperty(json_name="s")
    text = UnicodeProperty(compare_as=lambda x: x.lower())
    date = DateProperty(check=lambda x: True)
    datetime = DatetimeProperty(json_name="dt")


NAMES = ["int", "long", "integer", "number", "float", "str", "text", "date",
         "datetime"]
TYPES = {"int": int, "long": int, "integer": numbers.Integral,
         "number": numbers.Number, "float": float, "str": str, "text": str,
         "date": D, "datetime": T}
FORMATS = [
    "%Y-%m-%d", "%Y%m%d", "%Y-%m-%dT%H:%M", "%Y-%m-%d %H:%M",
    "%Y%m%dT%H:%M", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M:%S",
    "%Y%m%dT%H:%M:%S", "%Y-%m-%dT%H:%MZ", "%Y-%m-%dT%H:%M:%SZ"]
NOTEXT = object()


def write(t, fmt):
    return fmt.replace("%Y", "%04d" % t.year).replace(
        "%m", "%02d" % t.month).replace("%d", "%02d" % t.day).replace(
        "%H", "%02d" % t.hour).replace("%M", "%02d" % t.minute).replace(
        "%S", "%02d" % t.second)


def conv(name, x):
    """the value held, None if it is refused, NOTEXT if that isn't claimed
    (text that isn't ISO format, which dateutil may be there to read)"""
    t = TYPES[name]
    if isinstance(x, t) and not (name == "date" and isinstance(x, T)):
        return x
    try:
        if name in ("int", "long", "integer"):
            return int(x)
        if name == "float":
            return float(x)
        if name == "number":
            if isinstance(x, str):
                try:
                    return int(x)
                except ValueError:
                    pass
            return float(x)
    except Exception:
        return None
    if name == "str":
        return str(x)
    if name == "text":
        return None
    if isinstance(x, str):
        return NOTEXT
    if name == "datetime":
        if isinstance(x, D):
            return T(x.year, x.month, x.day)
        return None
    if isinstance(x, T):
        return D(x.year, x.month, x.day)
    if isinstance(x, Dated):
        y = x.date()
        return y if isinstance(y, D) and not isinstance(y, T) else None
    return None


@st.composite
def typed_cases(draw):
    name = draw(st.sampled_from(NAMES))
    n = draw(st.integers(1, 4))
    return {"name": name, "cls": draw(st.integers(0, 1)),
            "values": [draw(ANY) for _ in range(n)]}


def typed(case, ctx):
    name = case["name"]
    cls = (Typed, Checked)[case["cls"]]
    rec = cls()
    held = (rec.__dict__[name],) if name in rec.__dict__ else ()
    for lit in case["values"]:
        x = real(lit)
        want = conv(name, x)
        made = attempt(lambda: cls(**{name: x}))
        r = attempt(setattr, rec, name, x)
        is_t = isinstance(x, TYPES[name]) and want is x
        ctx.hit(not is_t)
        if want is NOTEXT:
            # whatever is read from it, it is of the type
            if isinstance(r, Raised):
                check(isinstance(r.exc, exc.CoercionError), "%r: rec.%s = "
                      "%r", lit, name, r)
                check(isinstance(made, Raised), "%r: accepted when made", lit)
            else:
                got = getattr(rec, name)
                check(is_of(name, got), "%r: rec.%s holds %s", lit, name,
                      short(got))
                held = (got,)
            continue
        if want is None:
            if name == "text":
                # None from a coerce function is dropped when made
                ok = x is None
            else:
                ok = False
            if ok:
                check(not isinstance(made, Raised) and not hasattr(
                    made, name), "%r: made %s", lit, short(made))
            else:
                check(isinstance(made, Raised) and isinstance(
                    made.exc, exc.CoercionError), "%r: made %s", lit,
                    short(made))
            check(isinstance(r, Raised) and isinstance(
                r.exc, exc.CoercionError), "%r: rec.%s = gives %s", lit,
                name, short(r))
            check(rec.__dict__.get(name, NOTEXT) is (held or (NOTEXT,))[0],
                  "%r: refused, but %s changed", lit, name)
            ctx.event("refused")
            continue
        check(not isinstance(made, Raised), "%r: made %r", lit, made)
        check(not isinstance(r, Raised), "%r: rec.%s = %r", lit, name, r)
        for how, got in (("made", getattr(made, name)),
                         ("assigned", getattr(rec, name))):
            check(got is x if is_t else same_value(got, want),
                  "%r: %s, %s holds %s, not %s", lit, how, name, short(got),
                  short(want))
            check(is_of(name, got), "%r: %s, %s holds %s", lit, how, name,
                  short(got))
        held = (getattr(rec, name),)
        ctx.event("kept" if is_t else "converted")


def is_of(name, got):
    return isinstance(got, TYPES[name]) and not (
        name == "date" and isinstance(got, T))


# -- text ----------------------------------------------------------------------
@st.composite
def text_cases(draw):
    kind = draw(st.sampled_from(["time", "time", "date", "int", "float",
                                 "junk", "noday"]))
    if kind == "junk":
        fmt = draw(st.sampled_from(FORMATS))
        junk = draw(st.sampled_from(["nonsense", "!", "?x", "\xe9", " or so",
                                     "\n@", "}"]))
        return {"kind": kind, "v": draw(ymdhms()), "fmt":
                junk + fmt if draw(st.integers(0, 3)) == 0 else fmt + junk}
    if kind == "noday":
        fmt = draw(st.sampled_from(FORMATS))
        v = draw(ymdhms())
        wrong = draw(st.sampled_from(
            ["day", "hour", "minute"] if "%H" in fmt else ["day"]))
        if wrong == "day":
            fmt = fmt.replace("%d", "31").replace("%m", draw(
                st.sampled_from(["02", "04", "11"])))
        elif wrong == "hour":
            fmt = fmt.replace("%H", "25")
        else:
            fmt = fmt.replace("%M", "60")
        return {"kind": kind, "v": v, "fmt": fmt}
    if kind == "time":
        v = draw(ymdhms())
        return {"kind": kind, "v": v, "fmt": draw(st.sampled_from(FORMATS))}
    if kind == "date":
        return {"kind": kind, "v": draw(ymd()), "fmt": draw(
            st.sampled_from(FORMATS[:2]))}
    if kind == "int":
        return {"kind": kind, "v": draw(ints), "fmt": draw(
            st.sampled_from(["%d", " %d", "%d ", "%+d", "%030d"]))}
    return {"kind": kind, "v": draw(st.floats(allow_nan=False,
                                              allow_infinity=False)),
            "fmt": "%r"}


def text(case, ctx):
    cls = Typed
    k = case["kind"]
    ctx.hit()
    ctx.event(k)
    if k in ("int", "float"):
        v, s = case["v"], case["fmt"] % case["v"]
        for name in ("int", "long", "integer", "number") if k == "int" else (
                "float", "number"):
            for how, got in ways(cls, name, s):
                check(same_value(got, v) and got == v, "%r: %s, %s holds %s",
                      s, how, name, short(got))
            for how, got in ways(cls, name, v):
                check(same_value(got, v), "%r: %s, %s holds %s", v, how, name,
                      short(got))
        if k == "int":
            for how, got in ways(cls, "float", v):
                check(type(got) is float and got == float(v),
                      "%r: %s, float holds %s", v, how, short(got))
        rec = cls(**{"number": v, "float": v} if k == "float" else {
            "number": v, "int": v, "integer": v})
    elif k in ("junk", "noday"):
        v = T(*case["v"])
        s = write(v, case["fmt"])
        for name in "datetime", "date":
            want = v if name == "datetime" else v.date()
            for how, fn in (("made", lambda: cls(**{name: s})),
                            ("json", lambda: from_json(cls, {name: s}))):
                r = attempt(fn)
                check(isinstance(r, Raised) and isinstance(
                    r.exc, TypeError), "%r: %s, %s: %s", s, how, name,
                    short(r))
            rec = cls(**{name: want})
            r = attempt(setattr, rec, name, s)
            check(isinstance(r, Raised) and isinstance(
                r.exc, exc.CoercionError), "%r: %s: %s", s, name, short(r))
            check(getattr(rec, name) == want, "%r: refused, but %s is now %s",
                  s, name, short(getattr(rec, name)))
        return
    else:
        v = T(*case["v"])
        s = write(v, case["fmt"])
        if "%H" not in case["fmt"]:
            v = T(v.year, v.month, v.day)
        elif "%S" not in case["fmt"]:
            v = v.replace(second=0)
        d = v.date()
        for name, want in ("datetime", v), ("date", d):
            for how, got in ways(cls, name, s):
                check(type(got) is type(want) and got == want,
                      "%r: %s, %s holds %s", s, how, name, short(got))
        rec = cls(date=d, datetime=v)
        doc = to_json(rec)
        check(doc == {"date": d.isoformat(), "datetime": v.isoformat()},
              "%s marshals out as %s", short(rec), doc)
    back = attempt(lambda: from_json(cls, json.loads(json.dumps(
        to_json(rec)))))
    check(not isinstance(back, Raised) and type(back) is cls,
          "%s: read back: %r", short(rec), back)
    for name in NAMES:
        check(same_value(getattr(back, name, None), getattr(rec, name, None)),
              "%s: read back, %s is %s", short(rec), name,
              short(getattr(back, name, None)))


def ways(cls, name, x):
    """the value held when it is given in each way"""
    def assigned():
        rec = cls()
        setattr(rec, name, x)
        return rec

    def again():
        rec = cls(**{name: x})
        setattr(rec, name, getattr(rec, name))
        return rec
    for how, fn in (("made", lambda: cls(**{name: x})),
                    ("assigned", assigned), ("again", again),
                    ("json", lambda: from_json(cls, {name: x})),
                    ("mapping", lambda: cls({name: x}))):
        r = attempt(fn)
        check(not isinstance(r, Raised), "%r: %s: %r", x, how, r)
        yield how, getattr(r, name)


PARTS = [
    Part("subtypes", chains, chain, quick=5000),
    Part("typed", typed_cases, typed, quick=8000),
    Part("text", text_cases, text, quick=2500),
]
