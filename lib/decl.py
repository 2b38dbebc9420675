"""Property declarations as literal data, and the reference model of what a
declared slot accepts (written from the documentation of Property())."""
from hypothesis import strategies as st

import normalize
from normalize import Property, Record, SafeProperty, subtype
from normalize.coll import DictCollection, ListCollection
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonListProperty

from lib.harness import strict_eq

UNSET = "<unset>"


class Obj(object):
    """an arbitrary foreign value"""
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "Obj(%r)" % (self.tag,)

    def __eq__(self, other):
        return isinstance(other, Obj) and other.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


class Kid(Record):
    n = Property(isa=int)


class SubStr(str):
    pass


def _half(x):
    return int(x) // 2 * 2


even = subtype("even", of=int, where=lambda x: x % 2 == 0)
evenc = subtype("evenc", of=int, where=lambda x: x % 2 == 0, coerce=_half)
badsub = subtype("badsub", of=str, where=lambda x: x.islower(),
                 coerce=lambda x: x.upper())
nonesub = subtype("nonesub", of=str, where=lambda x: x.islower(),
                  coerce=lambda x: None)

few = subtype("few", of=int, where=lambda x: x < 3, coerce=lambda x: int(x))

TYPES = {
    "int": int, "str": str, "float": float, "bytes": bytes, "bool": bool,
    "intstr": (int, str), "even": even, "evenc": evenc, "badsub": badsub,
    "nonesub": nonesub, "kid": Kid, "list": list, "dict": dict,
    "obj": object,
}


def c_boom(x):
    raise RuntimeError("boom")


def c_keyerr(x):
    raise KeyError("k")


def c_none(x):
    return None


def c_same(x):
    return x


def c_int(x):
    return int(x)


def c_str(x):
    return "<%s>" % (x,)


def c_len(x):
    return len(x)


def c_kid(x):
    return Kid(n=x)


def c_few(x):
    # raises SubtypeCoerceError, which names the value the subtype refused
    return few(x)


COERCE = {"few": c_few, "boom": c_boom, "keyerr": c_keyerr, "none": c_none, "same": c_same,
          "int": c_int, "str": c_str, "len": c_len, "kid": c_kid}


def k_truthy(x):
    return bool(x)


def k_short(x):
    return len(str(x)) <= 3


def k_notneg(x):
    return not isinstance(x, (int, float)) or x >= 0


def k_weird(x):
    # "something true", not a bool
    return [] if isinstance(x, int) and x % 3 == 0 else "ok"


def k_never(x):
    return 0


CHECK = {"truthy": k_truthy, "short": k_short, "notneg": k_notneg,
         "weird": k_weird, "never": k_never}


# -- values -----------------------------------------------------------------
class V(object):
    """strategies for literal values; ('@', kind, arg) stands for objects"""
    scalars = st.one_of(
        st.none(), st.booleans(),
        st.integers(-6, 12),
        st.sampled_from([2 ** 31, -2 ** 63, 2 ** 53 + 1, 999, 1000]),
        st.sampled_from(["", "5", "-3", "abc", "ABC", "x", " 7 ", "0", "é"]),
        st.text(max_size=4),
        st.sampled_from([0.0, 1.5, -2.25, 3.0]),
        st.sampled_from([b"", b"ab", b"12"]),
    )
    any = st.one_of(
        scalars,
        st.lists(st.integers(-3, 5), max_size=3),
        st.tuples(st.integers(0, 3)),
        st.dictionaries(st.sampled_from(["n", "a"]), st.integers(0, 3),
                        max_size=2),
        st.tuples(st.just("@"), st.sampled_from(["obj", "kid", "substr"]),
                  st.integers(0, 3)),
    )


NANS = [float("nan"), float("nan")]


def mat(v):
    """literal -> value"""
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "@":
        return {"obj": Obj, "kid": lambda n: Kid(n=n),
                "substr": lambda n: SubStr("s%d" % n),
                "nan": lambda n: NANS[n]}[v[1]](v[2])
    if isinstance(v, list):
        return [mat(x) for x in v]
    if isinstance(v, dict):
        return {k: mat(x) for k, x in v.items()}
    return v


# values a given type accepts directly, for directed generation
def typed_values(tname):
    return {
        "int": st.integers(-6, 12) | st.booleans(),
        "str": st.sampled_from(["", "abc", "ABC", "5"]) | st.text(max_size=4),
        "float": st.sampled_from([0.0, 1.5, -2.25]),
        "bytes": st.binary(max_size=3),
        "bool": st.booleans(),
        "intstr": st.integers(-3, 5) | st.text(max_size=3),
        "even": st.integers(-3, 5).map(lambda x: 2 * x),
        "evenc": st.integers(-3, 5),
        "badsub": st.sampled_from(["a", "bc"]),
        "nonesub": st.sampled_from(["a", "bc", "A"]),
        "kid": st.tuples(st.just("@"), st.just("kid"), st.integers(0, 3)),
        "list": st.lists(st.integers(0, 3), max_size=3),
        "dict": st.dictionaries(st.text(max_size=2), st.integers(0, 3),
                                max_size=2),
        "obj": V.any,
        None: V.any,
    }[tname]


class Bad(Exception):
    """the model's verdict: rejected.  kind: coerce | check | required"""
    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


ERRORS = {"coerce": TypeError, "check": ValueError, "required": ValueError}


def default_coerce(tname):
    t = TYPES[tname]
    if tname == "kid":
        return t
    return t


def model_accept(d, value, at_init=False, log=None):
    """What must a slot declared with ``d`` make of ``value``?  Returns the
    value to store, or UNSET, or raises Bad."""
    tname = d.get("isa")
    if value is None and d.get("required") and tname is None:
        raise Bad("required")
    if tname is not None and not isinstance(value, TYPES[tname]):
        fn = COERCE[d["coerce"]] if d.get("coerce") else TYPES[tname]
        try:
            if d.get("coerce"):
                new = fn(value)
            else:
                new = model_construct(tname, value)
        except Exception:
            raise Bad("coerce")
        if log is not None:
            log.append("coerced")
        if not isinstance(new, TYPES[tname]):
            if at_init and new is None and not d.get("required"):
                return UNSET
            raise Bad("coerce")
        value = new
    if d.get("check") and not CHECK[d["check"]](value):
        if log is not None:
            log.append("checkfail")
        raise Bad("check")
    return value


def model_construct(tname, value):
    """the declared type used as coerce function, without the package's own
    code for subtypes"""
    if tname == "even":
        raise TypeError
    if tname == "evenc":
        return _half(value)
    if tname == "badsub":
        return value.upper()
    if tname == "nonesub":
        return None
    if tname == "intstr":
        raise TypeError
    if tname == "kid":
        if not value:
            return Kid()
        if isinstance(value, dict):
            if set(value) - {"n"}:
                raise KeyError
            return Kid(n=value["n"])
        raise TypeError
    return TYPES[tname](value)


# types whose default is made afresh for every record
MADE = {x.__name__: x for x in (int, str, list, dict, bool, float)}


def decls(isa=None, allow=("required", "check", "coerce", "default",
                           "flavour")):
    """strategy for one declaration (a literal dict)"""
    @st.composite
    def build(draw):
        d = {}
        t = draw(st.sampled_from(
            [None, "int", "int", "str", "str", "float", "bool",
             "intstr", "even", "evenc", "badsub", "nonesub", "kid", "list",
             "dict", "obj"]))
        if t:
            d["isa"] = t
            if "coerce" in allow and draw(st.integers(0, 2)) == 0:
                d["coerce"] = draw(st.sampled_from(sorted(COERCE)))
        if "check" in allow and draw(st.integers(0, 2)) == 0:
            d["check"] = draw(st.sampled_from(
                ["truthy", "short", "notneg", "weird", "truthy", "short",
                 "notneg", "weird", "never"]))
        if "required" in allow and draw(st.integers(0, 3)) == 0:
            d["required"] = True
        if "default" in allow and draw(st.integers(0, 3)) == 0:
            v = draw(typed_values(t) | V.any)
            if draw(st.booleans()) or is_v1_default(v):
                d["default"] = (draw(st.sampled_from(
                    ["fn", "fn", "fnopt", "method", "fn"] + [
                        n for n, x in MADE.items()
                        if type(v) is x and v == x()] * 9)), v)
            else:
                d["default"] = ("val", v)
        if "flavour" in allow:
            fl = draw(st.sampled_from(
                ["", "", "", "json", "jsonnone", "extraneous", "noempty",
                 "safe", "safeclass", "jsonout"]))
            if fl:
                d["flavour"] = fl
        return d
    return build()


def is_v1_default(v):
    """false, immutable constant default: selects a V1 property"""
    m = mat(v)
    return not m and m.__hash__ is not None


def is_checked(d):
    """does the declaration make assignments type-checked?"""
    return bool(
        d.get("isa") or d.get("check") or "required" in d or
        d.get("flavour") in ("safe", "safeclass"))


def prop_kwargs(d, wrap=None):
    """keyword arguments for the declaration; ``wrap(kind, fn)`` may
    instrument the functions"""
    wrap = wrap or (lambda kind, fn: fn)
    kw = {}
    if d.get("isa"):
        kw["isa"] = TYPES[d["isa"]]
    if d.get("coerce"):
        kw["coerce"] = wrap("coerce", COERCE[d["coerce"]])
    if d.get("check"):
        kw["check"] = wrap("check", CHECK[d["check"]])
    if d.get("required"):
        kw["required"] = True
    if "default" in d:
        kind, v = d["default"]
        if kind == "fn":
            kw["default"] = wrap("default", lambda: mat(v))
        elif kind == "fnopt":
            fn = wrap("default", lambda: mat(v))
            kw["default"] = lambda a=None, b=0, *c, **d: (
                fn() if (a, b, c, d) == (None, 0, (), {}) else "arguments")
        elif kind == "method":
            fn = wrap("default", lambda: mat(v))
            kw["default"] = lambda self: (
                fn() if isinstance(self, Record) else "no record")
        elif kind in MADE:
            kw["default"] = MADE[kind]
        else:
            kw["default"] = mat(v)
    fl = d.get("flavour")
    if fl == "json":
        kw["json_name"] = "j"
    elif fl == "jsonnone":
        kw["json_name"] = None
    elif fl == "jsonout":
        kw["json_out"] = str
        kw["json_in"] = str
    elif fl == "extraneous":
        kw["extraneous"] = True
    elif fl == "noempty":
        kw["empty_attr"] = None
    elif fl == "safe":
        kw["traits"] = ["safe"]
    return kw


def make_prop(d, wrap=None):
    cls = SafeProperty if d.get("flavour") == "safeclass" else Property
    return cls(**prop_kwargs(d, wrap))


_n = [0]


def make_class(props, base=Record, name=None, **attrs):
    _n[0] += 1
    ns = dict(props)
    ns.update(attrs)
    ns.setdefault("__module__", __name__)
    return type(base)(name or "G%d" % _n[0], (base,), ns)


def get(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        return UNSET


def equal_value(a, b):
    """equal and of the same type"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, dict, tuple, float)):
        return strict_eq(a, b) or (a == b and not isinstance(a, float))
    return a == b
