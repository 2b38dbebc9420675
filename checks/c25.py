"""C25: record and collection types are what their definition says."""
import sys
import types

from hypothesis import strategies as st

from normalize import (
    DictCollection, DictProperty, IntProperty, JsonDictProperty,
    JsonListProperty, JsonProperty, JsonRecord, JsonRecordList,
    ListCollection, ListProperty, Property, Record,
    SafeProperty,
)
from normalize import exc
from normalize.coll import Collection, dict_of, list_of
from normalize.record.json import JsonRecordDict
from normalize.property import (
    LazyProperty, ROLazyProperty, ROProperty,
)

from lib.harness import (
    Part, Raised, attempt, check, must_not_raise, same, short,
)

PROPERTY = "C25"
RULE = (
    "A case is a sequence of class definitions (record types with up to two "
    "bases among those defined before, mixins, attributes of all kinds which "
    "may replace inherited ones, primary keys by name or object; some "
    "definitions are illegal) with values for an instance of each, or a "
    "sequence of requests for generic collection types, definitions and uses "
    "of collection types.  Non-trivial: some type has a base of the "
    "sequence, or some generic type is asked for again.")

NAMES = ["a", "b", "c", "d"]
KINDS = ["plain", "plain", "int", "safeint", "default", "fn", "required",
         "lazy", "ro", "rolazy", "extraneous", "list", "dict", "json", "v1"]


def make_prop(kind, owner, name):
    tag = "%s.%s" % (owner, name)
    if kind == "plain":
        return Property(doc=tag)
    if kind == "int":
        return IntProperty()
    if kind == "safeint":
        return SafeProperty(isa=int)
    if kind == "default":
        return Property(default=(tag,))
    if kind == "fn":
        return Property(default=lambda: [tag])
    if kind == "required":
        return Property(required=True)
    if kind == "lazy":
        return LazyProperty(default=lambda self: (
            tag, type(self).__name__))
    if kind == "ro":
        return ROProperty()
    if kind == "rolazy":
        return ROLazyProperty(default=lambda: tag)
    if kind == "extraneous":
        return Property(extraneous=True)
    if kind == "list":
        return ListProperty(of=int)
    if kind == "dict":
        return DictProperty(of=int)
    if kind == "json":
        return JsonProperty(json_name="J" + name)
    if kind == "v1":
        return Property(isa=str, default="")
    raise AssertionError(kind)


VALUES = {"list": [1, 2], "dict": {"k": 3}, "v1": "text"}
UNSET = object()


def given(kind, n):
    return VALUES.get(kind, n)


def initial(kind, owner, name, typename):
    tag = "%s.%s" % (owner, name)
    return {"default": (tag,), "fn": [tag], "lazy": (tag, typename),
            "rolazy": tag, "v1": ""}.get(kind, UNSET)


@st.composite
def worlds(draw):
    out = []
    for i in range(draw(st.integers(2, 6))):
        d = {"bases": [], "json": draw(st.integers(0, 3)) == 0,
             "mixin": draw(st.sampled_from([None, None, None, "before",
                                            "after"]))}
        if i:
            n = draw(st.sampled_from([0, 1, 1, 1, 2]))
            d["bases"] = draw(st.lists(st.integers(0, i - 1), min_size=min(
                n, i), max_size=min(n, i), unique=True))
        d["props"] = {
            n: draw(st.sampled_from(KINDS)) for n in draw(st.lists(
                st.sampled_from(NAMES), unique=True, max_size=3))}
        if draw(st.integers(0, 3)) == 0:
            # the names of few
            d["props"] = {n + str(i): k for n, k in d["props"].items()}
        d["pk"] = draw(st.sampled_from([None, None, "own", "any", "bad",
                                        "foreign", "number", "alien",
                                        "shadowed"]))
        d["pkseed"] = draw(st.integers(0, 10 ** 6))
        d["pkform"] = draw(st.sampled_from(["name", "prop", "mixed"]))
        d["pktype"] = draw(st.sampled_from(["list", "tuple"]))
        d["bad"] = draw(st.sampled_from([None] * 9 + [
            "properties", "eager_properties"]))
        d["vals"] = draw(st.lists(st.integers(1, 9), min_size=4, max_size=4))
        d["give"] = draw(st.integers(0, 255))
        out.append(d)
    return out


class Mixin(object):
    """some class which is no record"""
    flag = "mixed in"

    def describe(self):
        return sorted(type(self).properties)


class Alien(Record):
    x = Property()


class Model(object):
    def __init__(self, i, name):
        self.i, self.name = i, name
        self.props = {}         # name -> (kind, owner's name, Property)
        self.pk = ()
        self.bases = []
        self.json = False


def pick(seed, seq, n):
    """n of seq, in an order, from a number"""
    seq, out = sorted(seq), []
    for _ in range(min(n, len(seq))):
        out.append(seq.pop(seed % len(seq)))
        seed //= 7
    return out


def define(world, ctx):
    done = []       # (class, Model) or None
    for i, d in enumerate(world):
        name = "T%d" % i
        bases = [done[b] for b in d["bases"] if done[b]]
        m = Model(i, name)
        m.bases = [x for _, x in bases]
        error = None
        for _, x in bases:
            m.json = m.json or x.json
            for n, p in x.props.items():
                if n in m.props:
                    error = "clash"
                m.props[n] = p
        if len([1 for _, x in bases if x.json]) > 1:
            error = "clash"
        if not bases:
            m.json = d["json"]
        pybases = tuple(c for c, _ in bases) or (
            (JsonRecord,) if m.json else (Record,))
        if d["mixin"] == "before":
            pybases = (Mixin,) + pybases
        elif d["mixin"] == "after":
            pybases += (Mixin,)
        own = {}
        attrs = {"__module__": __name__, "__doc__": "about " + name,
                 "method": lambda self, n=name: n, "CONST": i}
        for n, k in d["props"].items():
            own[n] = attrs[n] = make_prop(k, name, n)
            m.props[n] = (k, name, own[n])
        if d["bad"] and not error:
            attrs[d["bad"]] = 5
            error = "reserved"
        elif d["bad"]:
            attrs[d["bad"]] = 5
        if d["pk"] and m.props:
            names = pick(d["pkseed"], d["props"] if d["pk"] == "own" else
                         m.props, 1 + d["pkseed"] % 2)
            pk = []
            for j, n in enumerate(names):
                form = d["pkform"]
                if form == "mixed":
                    form = ["name", "prop"][j % 2]
                pk.append(n if form == "name" else m.props[n][2])
            alien = {"bad": "nosuch", "foreign": Property(), "number": 17,
                     "alien": Alien.x}.get(d["pk"])
            if d["pk"] == "shadowed":
                # what it has replaced is not its own any more
                old = [x.props[n][2] for _, x in bases for n in sorted(
                    x.props) if n in own]
                alien = old[0] if old else None
            if alien is not None:
                pk.append(alien)
            if d["pktype"] == "tuple":
                pk = tuple(pk)
            attrs["primary_key"] = pk
            if alien is not None:
                error = error or "pk"
            else:
                m.pk = tuple(m.props[n][2] for n in names)
        what = "definition %d (%s)" % (i, short(world[:i + 1], 900))
        r = attempt(lambda: type(Record)(name, pybases, dict(attrs)))
        ctx.event(error or "defined")
        if error:
            cls = {"clash": exc.MultipleInheritanceClash,
                   "reserved": exc.ReservedPropertyName,
                   "pk": exc.PropertiesNotKnown}[error]
            check(isinstance(r, Raised) and isinstance(r.exc, cls),
                  "%s: %s expected, got %s", what, cls.__name__, short(r))
            if error == "clash":
                check(name in str(r.exc), "%s: %s", what, r)
            elif error == "reserved":
                check(r.exc.attrname == d["bad"] and d["bad"] in str(r.exc),
                      "%s: %s", what, r)
            else:
                same((r.exc.badprop, r.exc.proplist), (
                    repr(alien), repr(pk)), "%s: fields" % what)
            done.append(None)
            continue
        if isinstance(r, Raised) and isinstance(r.exc, TypeError) and \
                "MRO" in str(r.exc).upper() or isinstance(r, Raised) and \
                "resolution" in str(r.exc):
            done.append(None)           # python itself says no
            ctx.event("mro")
            continue
        check(not isinstance(r, Raised), "%s: %r", what, r)
        done.append((r, m))
        if bases:
            ctx.hit()
    return done


def structure(cls, m, what):
    names = dict(m.props)
    got = cls.properties
    extra = set(got) - set(names) - (
        {"unknown_json_keys"} if m.json else set())
    check(not extra and not set(names) - set(got), "%s: properties are %s",
          what, sorted(got))
    for n, (kind, owner, prop) in names.items():
        check(got[n] is prop, "%s: .%s is not the one of %s", what, n, owner)
        check(getattr(cls, n) is prop, "%s: class attribute %s is %s", what,
              n, short(getattr(cls, n)))
        same((prop.name, prop.fullname, prop.bound),
             (n, "%s.%s" % (owner, n), True), "%s: name of %s" % (what, n))
        check(prop.class_().__name__ == owner, "%s: %s is bound to %s", what,
              n, prop.class_())
    eager = {n for n, (k, _, _) in names.items() if k in (
        "default", "fn", "required")}
    check(set(cls.eager_properties) == eager, "%s: eager are %s", what,
          sorted(cls.eager_properties))
    check(type(cls.primary_key) is tuple and len(cls.primary_key) ==
          len(m.pk) and all(x is y for x, y in zip(cls.primary_key, m.pk)),
          "%s: primary key is %s", what, short(cls.primary_key))
    same((cls.__name__, cls.__doc__, cls.CONST), (
        m.name, "about " + m.name, m.i), "%s: attributes" % what)
    check(isinstance(cls, type(Record)) and issubclass(cls, Record) and
          issubclass(cls, JsonRecord) == m.json, "%s: bases are %s", what,
          cls.__mro__)


def instance(cls, m, d, what):
    vals = {}
    for j, n in enumerate(sorted(m.props)):
        kind = m.props[n][0]
        if kind == "required" or d["give"] & (1 << (j % 8)):
            vals[n] = given(kind, d["vals"][j % 4])
    x = must_not_raise(lambda: cls(**vals), "%s: making one of %s" % (
        what, vals))
    y = cls(**vals)
    same(x.method(), m.name, what + ": method")
    for n, (kind, owner, prop) in sorted(m.props.items()):
        want = vals[n] if n in vals else initial(kind, owner, n, m.name)
        for z in x, y:
            got = attempt(getattr, z, n)
            if want is UNSET:
                check(isinstance(got, Raised) and isinstance(
                    got.exc, AttributeError), "%s: .%s is %s", what, n,
                    short(got))
            else:
                check(not isinstance(got, Raised) and got == want,
                      "%s: .%s (a %s of %s) is %s, expected %s", what, n,
                      kind, owner, short(got), short(want))
    check(x == y and not x != y, "%s: not equal: %s, %s", what, short(x),
          short(y))
    r = attempt(lambda: cls(zz=1))
    check(isinstance(r, Raised) and (isinstance(r.exc, (
        exc.PropertyNotKnown, exc.PropertyRequired))), "%s: zz: %s", what,
        short(r))
    # the key
    if m.pk:
        key = []
        for prop in m.pk:
            v = attempt(getattr, x, prop.name)
            key.append(None if isinstance(v, Raised) else v)
        kinds = {m.props[p.name][0] for p in m.pk}
        if not kinds & {"fn", "list", "dict"}:
            check(x.__pk__ == tuple(key), "%s: key is %s, expected %s", what,
                  short(x.__pk__), short(key))
            check(hash(x) == hash(y), "%s: hashes differ", what)
            key = key[0] if len(key) == 1 else tuple(key)
            text, kt = str(x), repr(key)
            check(text == "<%s %s>" % (m.name, kt) if len(kt) <= 30 else
                  text.startswith("<%s %s" % (m.name, kt[:30])),
                  "%s: text is %s, the key is %s", what, text, kt)
            # other attributes do not count
            for n, (kind, _, prop) in m.props.items():
                if prop not in m.pk and kind in ("plain", "extraneous"):
                    setattr(y, n, "other")
                    check(hash(x) == hash(y) and y.__pk__ == x.__pk__,
                          "%s: .%s is in the key", what, n)
    check(Mixin not in cls.__mro__ or (
        x.flag == "mixed in" and x.describe() == sorted(cls.properties)),
        "%s: mixin", what)


def records(world, ctx):
    done = define(world, ctx)
    for late in False, True:
        for i, entry in enumerate(done):
            if entry is None:
                continue
            cls, m = entry
            what = "type %d of %s%s" % (i, short(world, 900),
                                        " (again)" if late else "")
            structure(cls, m, what)
            instance(cls, m, world[i], what)
            for c2, m2 in (e for e in done if e):
                check(issubclass(cls, c2) == (m is m2 or m2 in ancestry(m)),
                      "%s: subclass of %s", what, c2.__name__)


def ancestry(m):
    out = []
    for b in m.bases:
        out += [b] + ancestry(b)
    return out


# -- collection types --------------------------------------------------------------------
HOWS = ["list_of", "dict_of", "ListProperty", "DictProperty", "of",
        "JsonListProperty", "JsonDictProperty", "class", "jclass", "own",
        "twin", "nothing", "wrongisa"]


@st.composite
def requests(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from(HOWS), st.integers(0, 3),
        st.lists(st.integers(0, 9), max_size=3)), min_size=1, max_size=8))


_count = [0]


def types_(case, ctx):
    """the item types are new in every case"""
    _count[0] += 1
    mod = types.ModuleType("items_%d" % _count[0])
    sys.modules[mod.__name__] = mod
    try:
        generic(case, ctx, mod)
    finally:
        del sys.modules[mod.__name__]


def item_types(mod):
    out = []
    for i in range(4):
        base = JsonRecord if i % 2 else Record
        cls = type(base)("Item%d" % i, (base,), {
            "__module__": mod.__name__, "n": Property(isa=int)})
        setattr(mod, cls.__name__, cls)
        out.append(cls)
    return out


FAMILY = {"list_of": ListCollection, "dict_of": DictCollection,
          "ListProperty": ListCollection, "DictProperty": DictCollection,
          "of": ListCollection, "JsonListProperty": JsonRecordList,
          "JsonDictProperty": JsonRecordDict}


def generic(case, ctx, mod):
    items = item_types(mod)
    seen = {}
    for n, (how, k, ns) in enumerate(case):
        of = items[k]
        what = "request %d of %s" % (n, case)
        want = [of(n=x) for x in ns]
        if how in FAMILY:
            coll = FAMILY[how]
            if how == "list_of":
                cls = list_of(of)
            elif how == "dict_of":
                cls = dict_of(of)
            elif how == "of":
                cls = ListProperty(list_of=of).valuetype
            else:
                prop = {"ListProperty": ListProperty,
                        "DictProperty": DictProperty,
                        "JsonListProperty": JsonListProperty,
                        "JsonDictProperty": JsonDictProperty}[how](of=of)
                cls = prop.valuetype
            key = (coll.__name__, k)
            check(issubclass(cls, coll) and cls.itemtype is of,
                  "%s: %s of %s", what, cls.__mro__, cls.itemtype)
            name = of.__name__ + coll.suffix
            same(cls.__name__, name, "%s: name" % what)
            if key in seen:
                check(seen[key] is cls, "%s: another type than before", what)
                ctx.hit()
            seen[key] = cls
            check(issubclass(getattr(mod, name, int), Collection),
                  "%s: %s is not in the module of its items", what, name)
            usable(cls, of, ns, want, what)
        elif how in ("class", "jclass"):
            base = [ListCollection, DictCollection, JsonRecordList,
                    JsonRecordDict][(how == "jclass") * 2 + n % 2]
            cls = type(base)("Mine", (base,), {
                "itemtype": of, "extra": Property(default=3)})
            check(cls.itemtype is of, "%s: items are %s", what, cls.itemtype)
            usable(cls, of, ns, want, what)
            sub = type(cls)("Sub", (cls,), {})
            check(sub.itemtype is of and set(sub.properties) ==
                  set(cls.properties) and "extra" in sub.properties,
                  "%s: subclass", what)
            usable(sub, of, ns, want, what)
            check(sub(values=[]).extra == 3 if n % 2 == 0 else True,
                  "%s: extra", what)
        elif how == "own":
            base = ListCollection if n % 2 else DictCollection
            concrete = type(base)("Concrete%d_%d" % (n, k), (base,), {
                "itemtype": of})
            prop = (ListProperty if n % 2 else DictProperty)(
                of=of, isa=concrete)
            check(prop.valuetype is concrete and prop.of is of,
                  "%s: %s", what, prop.valuetype)
            rec = type(Record)("Has", (Record,), {"c": prop})
            x = rec(c=want if n % 2 else {"k%d" % j: y
                                          for j, y in enumerate(want)})
            check(type(x.c) is concrete and len(x.c) == len(want),
                  "%s: %s", what, short(x))
        elif how == "wrongisa":
            concrete = type(ListCollection)("Wrong", (ListCollection,), {
                "itemtype": of})
            # (a type of more than the collection takes is wrong, too)
            for other in (items[(k + 1) % 4], Record, object):
                r = attempt(lambda: ListProperty(of=other, isa=concrete))
                check(isinstance(r, Raised) and isinstance(
                    r.exc, exc.CollTypeMismatch), "%s: %s", what, short(r))
            kid = type(Record)("Kid", (of,), {"__module__": __name__})
            p = must_not_raise(lambda: ListProperty(of=kid, isa=concrete),
                               what)
            check(p.valuetype is concrete and p.of is of, what)
            coll = type(ListCollection)("Unrelated", (ListCollection,), {})
            r = attempt(lambda: ListProperty(of=of, isa=concrete, coll=coll))
            check(isinstance(r, Raised) and isinstance(
                r.exc, exc.CollTypeMismatch), "%s: %s", what, short(r))
        elif how == "twin":
            # another type of that name: refused once the first is in use
            twin = type(Record)(of.__name__, (Record,), {
                "__module__": mod.__name__, "other": Property()})
            r = attempt(lambda: list_of(twin))
            if ("ListCollection", k) in seen:
                check(isinstance(r, Raised) and isinstance(
                    r.exc, exc.PropertyNotUnique), "%s: %s", what, short(r))
                check(list_of(of) is seen["ListCollection", k],
                      "%s: it replaced the first", what)
            else:
                check(not isinstance(r, Raised) and r.itemtype is twin,
                      "%s: %s", what, short(r))
                r = attempt(lambda: list_of(of))
                check(isinstance(r, Raised) and isinstance(
                    r.exc, exc.PropertyNotUnique), "%s: %s", what, short(r))
                return
        else:
            for base, v in ((ListCollection, want or [1]), (
                    DictCollection, {"k": 1}), (JsonRecordList, [{}])):
                cls = type(base)("Nothing", (base,), {})
                r = attempt(lambda: cls(v))
                check(isinstance(r, Raised) and isinstance(
                    r.exc, exc.CollectionDefinitionError),
                    "%s: items of no type: %s", what, short(r))
                check(r.exc.property == "itemtype", "%s: %r", what, r)
        ctx.event(how)


def usable(cls, of, ns, want, what):
    d = issubclass(cls, DictCollection)
    src = {"k%d" % j: y for j, y in enumerate(want)} if d else list(want)
    raw = {"k%d" % j: {"n": x} for j, x in enumerate(ns)} if d else [
        {"n": x} for x in ns]
    for v in src, raw:
        c = must_not_raise(lambda: cls(v), "%s: making one of %s" % (
            what, short(v)))
        check(type(c) is cls and len(c) == len(want) and all(
            type(y) is of for _, y in c.itertuples()) and
            [y for _, y in c.itertuples()] == want,
            "%s: %s gives %s", what, short(v), short(c))


PARTS = [
    Part("records", worlds, records, quick=2500),
    Part("collections", requests, types_, quick=800),
]
