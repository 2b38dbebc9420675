"""Record types as literal data, literal values for them, and conversion both
ways through public attribute/item access only.

A schema is {"recs": [rec, ...]}; a rec is
    {"json": bool, "pk": [names], "fields": [field, ...]} with optional
    "base"  the record it derives from (whose fields are the first ones)
a field is {"n": name, "t": type, ...} with optional
    "jn"  JSON name (a string or None)     "x"   True: extraneous
    "req" True: required                   "cod" name of a JSON codec
    "ro"  True: read-only
A type is one of
    ("s", kind)         a scalar: int str float bool any date dt num list map
    ("r", k)            record k of the schema (k greater than its own index)
    ("l", item, var)    list; ("d", item, var) dict
                        var: plain | json | sub | jsub
Values:
    ("R", k, {field: value}[, {unknown JSON keys}])    ("L", [values])     ("D", {key: value})
    ("date", y, m, d)   ("dt", y, m, d, H, M, S)    ("A", literal)   scalars
"""
import datetime
import random
import sys
import types as pytypes

from hypothesis import strategies as st

from normalize import Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonDictProperty, JsonListProperty
from normalize.property.types import (
    DateProperty, DatetimeProperty, FloatProperty, IntegerProperty,
    IntProperty, NumberProperty, StringProperty, UnicodeProperty, date,
)
from normalize.record.json import JsonRecord, JsonRecordDict, JsonRecordList

from lib.harness import Violation, check, short, strict_eq

PYTYPE = {"int": int, "str": str, "float": float, "bool": bool,
          "date": datetime.date, "dt": datetime.datetime, "num": (int, float),
          "list": list, "map": dict}
NAMES = ["a", "b", "c", "name", "id", "first_name", "x1y", "kids", "T", "items",
         "keys", "next", "value"]
JNAMES = ["A", "b", "c", "fooBar", "a b", "", "name", "é", "id", "x.y"]


# -- schemas ----------------------------------------------------------------
FEATURES = dict(
    json=0.5,          # JsonRecord rather than Record
    jn=0.3,            # renamed JSON key
    jnone=0.08,        # JSON name None
    x=0.15,            # extraneous
    pk=0.3,
    req=0.1,
    cod=0.0,           # JSON codecs
    ro=0.0,
    scalars=["int", "str", "str", "bool", "float", "any"],
    items=["int", "str"],
    variants=["plain", "plain", "json", "sub", "jsub"],
    nest=True,         # collections of collections
    kinds="srrlld",
    maxrecs=4,
    maxfields=4,
    dictkeys=True,
    collpk=False,
    poly=0.0,          # a record type has a derived one
    share=0.4,         # the types have the same few attribute names
    samename=0.2,      # all types have the same name, in different modules
)


def make_schema(i, **features):
    """schema number i (grows with i)"""
    f = dict(FEATURES)
    f.update(features)
    r = random.Random("%d/%s" % (i, sorted(features.items())))
    nrec = 1 + (i > 3) * r.randint(0, f["maxrecs"] - 1)
    recs = []
    pool = list(NAMES)
    if r.random() < f["share"]:
        r.shuffle(pool)
        del pool[max(3, f["maxfields"]):]
    for k in range(nrec):
        names = list(pool)
        r.shuffle(names)
        nf = min(r.randint(1, f["maxfields"]), len(names))
        fields = []
        jused = set()
        for j in range(nf):
            t = _type(r, f, k, nrec, 0)
            fld = {"n": names[j], "t": t}
            jn = fld["n"]
            if r.random() < f["jn"]:
                jn = r.choice(JNAMES)
                if jn in jused or jn in names[:nf]:
                    jn = fld["n"]
                if jn != fld["n"]:
                    fld["jn"] = jn
            elif r.random() < f["jnone"]:
                fld["jn"] = None
                jn = None
            jused.add(jn)
            if r.random() < f["x"]:
                fld["x"] = True
            if r.random() < f["req"] and t != ("s", "any"):
                fld["req"] = True
            if r.random() < f["ro"]:
                fld["ro"] = True
            if t[0] == "s" and r.random() < f["cod"] and t[1] in CODEC_FOR:
                fld["cod"] = r.choice(CODEC_FOR[t[1]])
            elif t[0] == "s" and r.random() < 0.3:
                fld["tp"] = True        # typed property class
            fields.append(fld)
        rec = {"json": r.random() < f["json"], "fields": fields, "pk": []}
        if r.random() < f["pk"]:
            # (an extraneous key attribute would contradict equality)
            cand = [x["n"] for x in fields if not x.get("x") and
                    x["t"][0] == "s" and x["t"][1] != "any" or
                    f["collpk"] and not x.get("x") and x["t"][0] == "r"]
            r.shuffle(cand)
            rec["pk"] = cand[:r.choice([1, 1, 2])]
        recs.append(rec)
    for k in range(nrec if f["poly"] else 0):
        while r.random() < f["poly"] and len(recs) < 2 * f["maxrecs"]:
            recs.append(_derived(r, f, k, nrec, recs[k]))
    schema = {"recs": recs}
    if r.random() < f["samename"]:
        schema["same"] = True
    return schema


def _derived(r, f, k, nrec, base):
    names = [n for n in NAMES if n not in [x["n"] for x in base["fields"]]]
    r.shuffle(names)
    fields = list(base["fields"])
    jused = [x.get("jn", x["n"]) for x in fields]
    for n in names[:r.choice([0, 0, 1, 1, 2])]:
        if n in jused:
            continue
        fld = {"n": n, "t": _type(r, f, k, nrec, 0)}
        if r.random() < f["x"]:
            fld["x"] = True
        fields.append(fld)
    pk = [x["n"] for x in fields[len(base["fields"]):] if not x.get("x") and
          x["t"][0] == "s" and x["t"][1] != "any"]
    return {"json": base["json"], "fields": fields, "base": k,
            "pk": pk[:1] if r.random() < f["pk"] else []}


def family(schema, k):
    """the record types whose values have type k"""
    return [k] + [i for i, x in enumerate(schema["recs"])
                  if x.get("base") == k]


def _type(r, f, k, nrec, depth):
    kind = r.choice(f["kinds"])
    if kind == "r" and k + 1 < nrec:
        return ("r", r.randint(k + 1, nrec - 1))
    if kind in "ld" and (depth == 0 or f["nest"] and depth == 1 and
                         r.random() < 0.2):
        var = r.choice(f["variants"])
        if k + 1 < nrec and r.random() < 0.7:
            item = ("r", r.randint(k + 1, nrec - 1))
        elif f["nest"] and depth == 0 and r.random() < 0.25:
            item = _type(r, f, k, nrec, depth + 1)
            if item[0] == "s":
                item = ("s", r.choice(f["items"]))
            elif item[0] in "ld" and item[2] in ("plain", "json") and \
                    var in ("plain", "json"):
                # generic JSON and plain lists of the same items have the same
                # name, so generic lists of both would be a definition error
                var = {"plain": "sub", "json": "jsub"}[var]
        else:
            item = ("s", r.choice(f["items"]))
        return (kind, item, var)
    if depth:
        return ("s", r.choice(f["items"]))
    return ("s", r.choice(f["scalars"]))


def schemas(n=400, lo=0, **features):
    return st.integers(lo, n).map(lambda i: make_schema(i, **features))


# -- JSON codecs (invertible conversion functions) ---------------------------
def _hex_in(x):
    if not isinstance(x, str) or not x.startswith("h"):
        raise ValueError("not a hex string: %r" % (x,))
    return int(x[1:], 16)


def _wrap_in(x):
    if not isinstance(x, dict) or set(x) != {"v"}:
        raise ValueError("not wrapped: %r" % (x,))
    return x["v"]


CODECS = {      # name: (json_in, json_out)
    "hex": (_hex_in, lambda v: "h%x" % v),
    "wrap": (_wrap_in, lambda v: {"v": v}),
    "rev": (lambda s: s[::-1], lambda s: s[::-1]),
    "listed": (lambda x: x[0], lambda v: [v]),
}
CODEC_FOR = {"int": ["hex", "listed"], "str": ["rev", "wrap", "listed"],
             "bool": ["wrap"]}


def compare_item_as(v):
    """clean-up function of the collection types of variant 'cia'"""
    if isinstance(v, str):
        return v.lower() or "b"
    return (v + 1) % 3 if type(v) is int else v


# -- classes ----------------------------------------------------------------
class Built(object):
    """the classes of one schema"""
    def __init__(self, schema):
        self.schema = schema
        self.recs = [None] * len(schema["recs"])
        self.colls = {}
        self.name = None
        if schema.get("same"):
            _count[0] += 1
            self.name = "S%dx" % _count[0]
        for k in reversed(range(len(self.recs))):
            self.rec(k)

    def rec(self, k):
        if self.recs[k] is None:
            self.recs[k] = self.make_rec(k)
        return self.recs[k]

    def make_rec(self, k):
        rec = self.schema["recs"][k]
        ns = {"__module__": __name__}
        base = rec.get("base")
        for fld in rec["fields"][
                0 if base is None else len(self.fields(base)):]:
            ns[fld["n"]] = self.make_prop(fld)
        if rec["pk"]:
            ns["primary_key"] = tuple(ns[n] for n in rec["pk"])
        base = self.rec(base) if base is not None else \
            JsonRecord if rec["json"] else Record
        return _declare(base, ns, self.name)

    def make_prop(self, fld):
        kw = {}
        if "jn" in fld:
            kw["json_name"] = fld["jn"]
        if fld.get("x"):
            kw["extraneous"] = True
        if fld.get("req"):
            kw["required"] = True
        if fld.get("ro"):
            kw["traits"] = ["ro"]
        if fld.get("cod"):
            kw["json_in"], kw["json_out"] = CODECS[fld["cod"]]
        if "ca" in fld:
            kw["compare_as"] = COMPARE_AS[fld["ca"]]
        if "lz" in fld:
            val = fld["lz"]
            kw["lazy"] = True
            kw["default"] = lambda: val
        t = fld["t"]
        if t[0] == "s":
            kind = t[1]
            if kind == "any":
                return Property(**kw)
            if kind == "date":
                return DateProperty(**kw)
            if kind == "dt":
                return DatetimeProperty(**kw)
            if kind == "num":
                return NumberProperty(**kw)
            if fld.get("tp"):
                cls = {"int": IntProperty, "str": StringProperty,
                       "float": FloatProperty}.get(kind)
                if cls:
                    return cls(**kw)
            return Property(isa=PYTYPE[kind], **kw)
        cls = self.cls(t)
        if t[0] == "r":
            return Property(isa=cls, **kw)
        if t[2] == "plain" and not fld.get("cod") and "jn" not in fld:
            return (ListProperty if t[0] == "l" else DictProperty)(
                of=cls.itemtype, **kw)
        if t[2] == "json":
            return (JsonListProperty if t[0] == "l" else JsonDictProperty)(
                of=cls.itemtype, **kw)
        return Property(isa=cls, **kw)

    def cls(self, t):
        """python class of a type"""
        if t[0] == "s":
            return {"any": object, "date": date}.get(t[1]) or PYTYPE[t[1]]
        if t[0] == "r":
            return self.rec(t[1])
        key = repr(t)
        if key not in self.colls:
            item = self.cls(t[1])
            if t[2] == "plain":
                c = (list_of if t[0] == "l" else dict_of)(item)
            elif t[2] == "json":
                c = (JsonListProperty if t[0] == "l" else JsonDictProperty)(
                    of=item).valuetype
            else:
                base = {"lcia": ListCollection, "dcia": DictCollection,
                        "lsub": ListCollection, "ljsub": JsonRecordList,
                        "dsub": DictCollection, "djsub": JsonRecordDict}[
                            t[0] + t[2]]
                ns = {"__module__": __name__, "itemtype": item}
                if t[2] == "cia":
                    ns["compare_item_as"] = staticmethod(compare_item_as)
                c = _declare(base, ns, self.name)
            self.colls[key] = c
        return self.colls[key]

    def fields(self, k):
        return self.schema["recs"][k]["fields"]

    # -- literal <-> object
    def mk(self, t, v):
        if isinstance(v, tuple):
            tag = v[0]
            if tag == "R":
                # v may be of another record type than declared
                cls = self.recs[v[1]]
                types = {f["n"]: f["t"] for f in self.fields(v[1])}
                kw = {n: self.mk(types[n], x) for n, x in v[2].items()}
                if len(v) > 3:
                    kw["unknown_json_keys"] = clone(v[3])
                return cls(**kw)
            if tag == "L":
                return self.cls(t)(values=[self.mk(t[1], x) for x in v[1]])
            if tag == "D":
                return self.cls(t)(
                    values={k: self.mk(t[1], x) for k, x in v[1].items()})
            if tag == "date":
                return datetime.date(*v[1:])
            if tag == "dt":
                return datetime.datetime(*v[1:])
            if tag == "A":
                return clone(v[1])
            raise ValueError(v)
        return v

    def un(self, t, obj, what="value"):
        """object -> literal; the object must conform to the type"""
        if t[0] == "s":
            kind = t[1]
            if kind == "any":
                return ("A", clone(obj))
            check(isinstance(obj, PYTYPE[kind]),
                  "%s: %s is not of type %s", what, short(obj), kind)
            if kind in ("list", "map"):
                return ("A", clone(obj))
            if kind == "dt":
                return ("dt",) + tuple(obj.timetuple()[:6])
            if kind == "date":
                check(not isinstance(obj, datetime.datetime),
                      "%s: a datetime, not a date", what)
                return ("date", obj.year, obj.month, obj.day)
            return obj
        cls = self.cls(t)
        if t[0] == "r" and type(obj) in self.recs:
            k = self.recs.index(type(obj))
            if k in family(self.schema, t[1]):
                t, cls = ("r", k), type(obj)
        check(type(obj) is cls, "%s: %s is a %s, not a %s", what, short(obj),
              type(obj).__name__, cls.__name__)
        if t[0] == "r":
            out = {}
            for f in self.fields(t[1]):
                if "lz" in f and not self.lazy_set(obj, f["n"]):
                    continue
                try:
                    x = getattr(obj, f["n"])
                except AttributeError:
                    continue
                out[f["n"]] = self.un(f["t"], x, what + "." + f["n"])
            if self.schema["recs"][t[1]]["json"]:
                unk = getattr(obj, "unknown_json_keys", None)
                if unk is not None:
                    return ("R", t[1], out, clone(unk))
            return ("R", t[1], out)
        if t[0] == "l":
            return ("L", [self.un(t[1], x, "%s[%d]" % (what, i))
                          for i, x in enumerate(obj)])
        return ("D", {k: self.un(t[1], x, "%s[%r]" % (what, k))
                      for k, x in obj.items()})

    def lazy_set(self, obj, name):
        return name in obj.__dict__


_count = [0]


def _declare(base, ns, name=None):
    """a new type, with a name of its own or in a module of its own"""
    _count[0] += 1
    module = __name__
    if name is None:
        name = "G%dx" % _count[0]
    else:
        module = ns["__module__"] = "%s_%d" % (__name__, _count[0])
        sys.modules[module] = pytypes.ModuleType(module)
    ns.setdefault("__qualname__", name)
    cls = type(base)(name, (base,), ns)
    setattr(sys.modules[module], name, cls)
    return cls


_built = {}


def build(schema):
    key = repr(schema)
    if key not in _built:
        _built[key] = Built(schema)
    return _built[key]


COMPARE_AS = {}


def clone(x):
    """copy of plain data"""
    if isinstance(x, list):
        return [clone(y) for y in x]
    if isinstance(x, dict):
        return {k: clone(y) for k, y in x.items()}
    return x


def reordered(v):
    """the same value, with its dicts filled (and attributes given) in the
    opposite order"""
    if isinstance(v, (tuple, list)):
        return type(v)(reordered(x) for x in v)
    if isinstance(v, dict):
        return {k: reordered(v[k]) for k in reversed(list(v))}
    return v


# -- values -----------------------------------------------------------------
STRS = ["", "a", "b", "A", " a ", "a  b", "é", "e\u0301", "ab\nc", "0", "1",
        "it's", "\"q\"", "]", "\U0001f600", "a.b", "None"]
INTS = [0, 1, 2, 3, -1, 7, 2 ** 31, 2 ** 50, 2 ** 50 + 1, -2 ** 50 - 1,
        2 ** 53 + 1, 2 ** 64, -10 ** 30]
KEYS = ["a", "b", "c", "", "0", "k 1", "it's", "é", "a]b", "x.y"]

json_any = st.recursive(
    st.none() | st.booleans() | st.integers(-5, 5) |
    st.sampled_from(STRS) | st.sampled_from([0.5, -1.25, 1e20]),
    lambda s: st.lists(s, max_size=3) | st.dictionaries(
        st.sampled_from(KEYS), s, max_size=3),
    max_leaves=5)

SCALAR = {
    "int": st.sampled_from(INTS[:6]) | st.sampled_from(INTS),
    "str": st.sampled_from(STRS) | st.text(max_size=3),
    "float": st.sampled_from([0.0, 1.0, 1.5, -2.25, 1e300, 5e-324]),
    "bool": st.booleans(),
    "any": json_any.map(lambda x: ("A", x)),
    "list": st.lists(json_any, max_size=2).map(lambda x: ("A", x)),
    "map": st.dictionaries(st.sampled_from(KEYS), json_any, max_size=2).map(
        lambda x: ("A", x)),
    "num": st.integers(-3, 9) | st.sampled_from([0.5, 2.0, 2 ** 60]),
    "date": st.dates().map(lambda d: ("date", d.year, d.month, d.day)),
    "dt": st.datetimes().map(lambda d: (
        "dt", d.year, d.month, d.day, d.hour, d.minute, d.second)),
}


def lists(items, maxlen):
    """lists; a few are long ones"""
    few = st.lists(items, max_size=maxlen)
    if maxlen < 3:
        return few
    return st.integers(0, 29).flatmap(
        lambda i: few if i else st.tuples(
            st.lists(items, min_size=1, max_size=maxlen),
            st.integers(10, 13)).map(
                lambda x: [clone_lit(y) for y in (x[0] * 13)[:x[1]]]))


def clone_lit(v):
    """a literal equal to this one, sharing no containers with it"""
    if isinstance(v, (list, tuple)):
        return type(v)(clone_lit(x) for x in v)
    if isinstance(v, dict):
        return {k: clone_lit(x) for k, x in v.items()}
    return v


def values(schema, t=("r", 0), scalars=None, keys=None, maxlen=3,
           unset=True, unknown=None):
    """strategy of literal values of a type"""
    scal = dict(SCALAR, **(scalars or {}))
    kk = keys or st.sampled_from(KEYS)
    memo = {}

    def go(t, just=""):
        key = just + repr(t)
        if key in memo:
            return memo[key]
        if t[0] == "s":
            s = scal[t[1]]
        elif t[0] == "r" and len(family(schema, t[1])) > 1 and key[0] == "(":
            s = st.one_of([go(t, "of") if k == t[1] else go(("r", k))
                           for k in family(schema, t[1])])
        elif t[0] == "r":
            req, opt = {}, {}
            for f in schema["recs"][t[1]]["fields"]:
                must = f.get("req") or not unset
                (req if must else opt)[f["n"]] = go(f["t"])
            k = t[1]
            s = st.fixed_dictionaries(req, optional=opt).map(
                lambda d: ("R", k, d))
            if unknown is not None and schema["recs"][k]["json"]:
                s = st.tuples(s, st.none() | unknown(k)).map(
                    lambda x: x[0] + ((x[1],) if x[1] else ()))
        elif t[0] == "l":
            s = lists(go(t[1]), maxlen).map(lambda x: ("L", x))
        else:
            s = st.dictionaries(kk, go(t[1]), max_size=maxlen).map(
                lambda x: ("D", x))
        memo[key] = s
        return s
    return go(t)


@st.composite
def dense(draw, schema, t=("r", 0), scalars=None, keys=None, maxlen=3):
    """like values(), with most attributes set and few empty collections"""
    scal = dict(SCALAR, **(scalars or {}))
    kk = keys or st.sampled_from(KEYS)
    budget = [14]

    def go(t):
        if t[0] == "s":
            return draw(scal[t[1]])
        budget[0] -= 1
        if t[0] == "r":
            out = {}
            k, fam = t[1], family(schema, t[1])
            if len(fam) > 1:
                k = draw(st.sampled_from(fam))
            for f in schema["recs"][k]["fields"]:
                if f.get("req") or draw(st.integers(0, 7)) and (
                        budget[0] > 0 or f["t"][0] == "s"):
                    out[f["n"]] = go(f["t"])
            return ("R", k, out)
        n = draw(st.integers(0, maxlen)) if budget[0] > 0 else 0
        if t[0] == "l":
            items = [go(t[1]) for _ in range(n)]
            if 0 < n == maxlen > 2 and not draw(st.integers(0, 15)):
                # a long one
                items = [clone_lit(x) for x in (items * 13)[
                    :draw(st.integers(10, 13))]]
            return ("L", items)
        return ("D", {k: go(t[1]) for k in draw(
            st.lists(kk, min_size=n, max_size=n, unique=True))})
    return go(t)


# -- model relations ---------------------------------------------------------
def lit_eq(a, b):
    """structurally the same literal (dict order does not matter)"""
    return strict_eq(a, b)


def drop_extraneous(schema, t, v):
    """v without its extraneous attributes"""
    if t[0] == "r":
        fl = {f["n"]: f for f in schema["recs"][v[1]]["fields"]}
        return ("R", v[1], {
            n: drop_extraneous(schema, fl[n]["t"], x)
            for n, x in v[2].items() if not fl[n].get("x")})
    if t[0] == "l":
        return ("L", [drop_extraneous(schema, t[1], x) for x in v[1]])
    if t[0] == "d":
        return ("D", {k: drop_extraneous(schema, t[1], x)
                      for k, x in v[1].items()})
    return v


def model_eq(schema, t, a, b):
    """what Record.__eq__ should say for two values of declared type t"""
    return drop_extraneous(schema, t, a) == drop_extraneous(schema, t, b)


def walk(schema, t, v, path=()):
    """every location of a value: (path, type, literal, field or None)"""
    yield path, t, v, None
    for x in _walk(schema, t, v, path):
        yield x


def _walk(schema, t, v, path):
    if t[0] == "r":
        for f in schema["recs"][v[1]]["fields"]:
            if f["n"] in v[2]:
                p = path + (f["n"],)
                yield p, f["t"], v[2][f["n"]], f
                for y in _walk(schema, f["t"], v[2][f["n"]], p):
                    yield y
    elif t[0] == "l":
        for i, x in enumerate(v[1]):
            p = path + (i,)
            yield p, t[1], x, None
            for y in _walk(schema, t[1], x, p):
                yield y
    elif t[0] == "d":
        for k, x in v[1].items():
            p = path + (k,)
            yield p, t[1], x, None
            for y in _walk(schema, t[1], x, p):
                yield y


def mutate(schema, t, v, draw, scalars=None, n=1):
    """a value of the same type obtained from v by up to n small edits"""
    for _ in range(n):
        v = _mutate1(schema, t, v, draw, scalars)
    return v


def _mutate1(schema, t, v, draw, scalars):
    def here():
        return draw(values(schema, t, scalars))
    if t[0] == "s":
        return here()
    if t[0] == "r":
        fields = schema["recs"][v[1]]["fields"]
        fam = family(schema, t[1])
        if len(fam) > 1 and draw(st.integers(0, 4)) == 0:
            k = draw(st.sampled_from(fam))
            names = [f["n"] for f in schema["recs"][
                t[1] if k != v[1] else k]["fields"]]
            return ("R", k, {n: x for n, x in v[2].items() if n in names})
        f = fields[draw(st.integers(0, len(fields) - 1))]
        d = dict(v[2])
        if f["n"] not in d:
            d[f["n"]] = draw(values(schema, f["t"], scalars))
        elif not f.get("req") and draw(st.integers(0, 3)) == 0:
            del d[f["n"]]
        else:
            d[f["n"]] = _mutate1(schema, f["t"], d[f["n"]], draw, scalars)
        return ("R", v[1], d)
    how = draw(st.sampled_from(["edit", "edit", "add", "del", "move", "dup"]))
    if t[0] == "l":
        items = list(v[1])
        n = len(items)
        if not n or how == "add":
            items.insert(draw(st.integers(0, n)),
                         draw(values(schema, t[1], scalars)))
        elif how == "edit":
            i = draw(st.integers(0, n - 1))
            items[i] = _mutate1(schema, t[1], items[i], draw, scalars)
        elif how == "del":
            del items[draw(st.integers(0, n - 1))]
        elif how == "dup":
            items.insert(draw(st.integers(0, n)),
                         items[draw(st.integers(0, n - 1))])
        else:
            i = draw(st.integers(0, n - 1))
            x = items.pop(i)
            items.insert(draw(st.integers(0, n - 1)), x)
        return ("L", items)
    items = dict(v[1])
    keys = list(items)
    if not keys or how == "add":
        items[draw(st.sampled_from(KEYS))] = draw(
            values(schema, t[1], scalars))
    elif how == "del":
        del items[draw(st.sampled_from(keys))]
    elif how in ("move", "dup"):
        k = draw(st.sampled_from(keys))
        x = items[k] if how == "dup" else items.pop(k)
        items[draw(st.sampled_from(KEYS))] = x
    else:
        k = draw(st.sampled_from(keys))
        items[k] = _mutate1(schema, t[1], items[k], draw, scalars)
    return ("D", items)
