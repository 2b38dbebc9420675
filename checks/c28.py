"""C28: threads working on objects of their own do not disturb each other."""
import copy
import pickle
import sys

from hypothesis import strategies as st

from lib import sched
from lib.harness import Part, check, same, short
import lib.schema
import normalize
from normalize import (
    FieldSelector, JsonProperty, JsonRecord, LazyProperty, MultiFieldSelector,
    Property, Record, V1Property, from_json, to_json,
)
from normalize.coll import dict_of, list_of
from normalize.diff import diff_iter
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonListProperty
from normalize.property.meta import MetaProperty
from normalize.record.json import JsonRecordList
from normalize.visitor import VisitorPattern

PROPERTY = "C28"
RULE = (
    "A case is a family of new record types, two or three programs of one to "
    "four operations each (marshalling, loading, comparing, visiting, "
    "declaring, asking for collection types, ...) on records of their own or "
    "on one they all only read, and a schedule: one to four places (lines of "
    "the library, first or later visits) at which the running thread has to "
    "let the next one run.  Threads run one at a time.  Non-trivial: at least "
    "one thread was interrupted within the library and another one ran.")

_uid = [0]


class Plain(object):
    """not a record; knows JSON"""
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Plain(%r)" % (self.v,)

    def __eq__(self, other):
        return isinstance(other, Plain) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    @classmethod
    def from_json(cls, doc):
        return cls(doc["v"])


# (a thread may be interrupted in these, too)
def user_default(self):
    k = getattr(self, "k", 7)
    return k


def user_coerce(x):
    if x == "":
        raise ValueError("empty")
    return int(x)


def user_check(x):
    good = x >= 0
    return good


def user_json_in(x):
    y = x
    return y


class Family(object):
    """new types, which the library has not seen yet"""
    def __init__(self, spec):
        _uid[0] += 1
        self.uid = "Q%dQ" % _uid[0]
        self.spec = spec
        if spec["takes"]:
            def json_data(self, extraneous=False):
                return {"v": self.v, "x": extraneous}
        else:
            def json_data(self):
                return {"v": self.v}
        self.plain = self.declare("Plain", Plain, {"json_data": json_data})
        base = JsonRecord if spec["json"] else Record
        self.inner = self.declare("Inner", base, {
            "a": Property(isa=int),
            "b": JsonProperty(isa=str, json_name="B", default="x"),
            "c": JsonProperty(isa=int, coerce=user_coerce, check=user_check,
                              json_in=user_json_in, json_out=user_json_in),
            "e": Property(extraneous=True)})
        ns = {"inner": Property(isa=self.inner),
              "p": Property(isa=self.plain),
              "pq": Property(isa=(self.plain, self.inner)),
              "n": V1Property(isa=int, default=0),
              "z": LazyProperty(default=user_default),
              "zs": LazyProperty(isa=int, default=user_default),
              "k": JsonProperty(isa=int, json_name="K")}
        if spec["list"]:
            ns["items"] = (JsonListProperty if spec["list"] == "j" else
                           ListProperty)(of=self.inner)
        if spec["dict"]:
            ns["m"] = DictProperty(of=self.inner)
        if spec["pk"]:
            ns["primary_key"] = [ns["k"]]
        self.outer = self.declare(
            "Outer", JsonRecord if spec["outer"] else Record, ns)
        self.roles = {self.plain: "plain", self.inner: "inner",
                      self.outer: "outer"}

    def declare(self, name, base, ns):
        name += self.uid
        new = type(base)(name, (base,), dict(
            ns, __module__="lib.schema", __qualname__=name))
        setattr(sys.modules["lib.schema"], name, new)
        return new

    def doc(self, lit):
        """the JSON data of a value"""
        lit = copy.deepcopy(lit)
        if not self.spec["list"]:
            lit.pop("items", None)
        if not self.spec["dict"]:
            lit.pop("m", None)
        return lit

    def mk(self, lit):
        return from_json(self.outer, self.doc(lit))

    def canon(self, x):
        """as plain data without the names of types"""
        if isinstance(x, self.plain):
            return ("plain", x.v)
        if isinstance(x, Record):
            out = {}
            for n in sorted(type(x).properties):
                if n in x.__dict__:
                    out[n] = self.canon(x.__dict__[n])
            name = type(x).__name__.replace(self.uid, "")
            if hasattr(x, "itertuples"):
                return (name, [(k, self.canon(v)) for k, v in sorted(
                    x.itertuples())], out)
            return (name, out)
        if isinstance(x, (list, tuple)):
            return [self.canon(y) for y in x]
        if isinstance(x, dict):
            return {k: self.canon(y) for k, y in x.items()}
        if isinstance(x, Exception):
            return (type(x).__name__, str(x).replace(self.uid, ""))
        if isinstance(x, str):
            return x.replace(self.uid, "")
        if isinstance(x, type):
            return ("type", x.__name__.replace(self.uid, ""))
        return x

    def forget(self):
        """(only to save memory)"""
        for name in list(vars(lib.schema)):
            if self.uid in name:
                delattr(lib.schema, name)
        for mod in list(sys.modules.values()):
            if mod and getattr(mod, "__name__", "").startswith("normalize"):
                for d in list(vars(mod).values()):
                    if type(d) is dict and d is not vars(mod) and \
                            len(d) < 3000:
                        for k in list(d):
                            if isinstance(k, (type, tuple)) and \
                                    self.uid in repr(k):
                                d.pop(k, None)


# -- operations --------------------------------------------------------------
def op_json(F, x, arg):
    return to_json(x, arg)


def op_json_data(F, x, arg):
    if hasattr(x, "json_data"):
        return x.json_data(arg)
    return to_json(x)


def op_inner_json(F, x, arg):
    return [to_json(F.inner(a=3, e=[1]), arg), to_json(F.plain(4), arg)]


def op_load(F, x, arg):
    return from_json(F.outer, F.doc(arg))


def op_bad_load(F, x, arg):
    from_json(F.outer, [
        {"K": 1, "inner": {"a": "no number"}},
        {"K": 1, "inner": {"c": -7}},
        {"items": [{"a": 1}, {"a": "no"}], "m": {"k": {"c": "no"}}},
        {"m": {"k": {"a": 1}, "l": {"c": ""}}, "items": [{"c": "no"}]},
        {"K": "no number"}, {"inner": {"B": 1, "c": "no"}}][arg % 6])


def op_list(F, x, arg):
    cls = list_of(F.inner)
    F.generic.append(("list", cls))
    y = cls([F.inner(a=1), {"a": 2}])
    y.append({"a": arg})
    return [y, cls is list_of(F.inner), y == cls(list(y))]


def op_dict(F, x, arg):
    cls = dict_of(F.inner)
    F.generic.append(("dict", cls))
    y = cls({"x%d" % arg: F.inner(a=1), "y%d" % arg: {"a": arg}})
    y.update({"z%d" % arg: {"a": 2}})
    return [y, sorted(y), cls is dict_of(F.inner)]


def op_list_pickle(F, x, arg):
    y = list_of(F.inner)([{"a": arg}])
    z = pickle.loads(pickle.dumps(y))
    return [z, y == z, type(y) is type(z)]


def op_jlist(F, x, arg):
    new = F.declare("J", JsonRecordList, {"itemtype": F.inner})
    return [new([{"a": arg}]), to_json(new([{"a": 1}]))]


def op_record(F, x, arg):
    new = type(Record)("New", (Record,), {
        "__module__": "lib.schema",
        "items": ListProperty(of=F.inner), "a": Property(default=arg),
        "m": DictProperty(of=F.inner)})
    F.generic.append(("list", new.properties["items"].valuetype))
    F.generic.append(("dict", new.properties["m"].valuetype))
    y = new(items=[F.inner(a=arg)])
    return [y, new(items=list_of(F.inner)([{"a": 1}])),
            sorted(new.properties), sorted(new.eager_properties)]


def op_traits(F, x, arg):
    """a combination of traits nobody asked for before"""
    kw = [dict(isa=int), dict(required=True, isa=int), dict(lazy=True,
          default=lambda: 3), dict(isa=int, json_name="J"),
          dict(of=F.inner, isa=None)][arg % 5]
    traits = [F.trait]
    if "of" in kw:
        kw.pop("isa")
        traits.append("list")
    p = Property(traits=traits, **kw)
    new = type(Record)("New", (Record,), {"__module__": "lib.schema", "p": p})
    out = [list(type(p).traits)]
    if "of" in kw:
        out.append(len(new(p=[{"a": 1}]).p))
    elif "lazy" in kw:
        out.append(new().p)
    else:
        out.append(new(p=5).p)
        try:
            new(p="x")
        except Exception as e:
            out.append(type(e).__name__)
    return repr(out)


def op_diff(F, x, arg):
    y = F.mk(arg)
    return [(d.diff_type.canonical_name, d.base.path, d.other.path)
            for d in diff_iter(x, y)]


def op_eq(F, x, arg):
    y = F.mk(arg)
    return [x == y, y == x, x != y, x == F.mk(arg)]


def op_text(F, x, arg):
    return [str(x), repr(x).replace(hex(id(x)), "")]


def op_hash(F, x, arg):
    y = F.inner(a=arg)
    return [hash(y) == hash(F.inner(a=arg)), len({y, F.inner(a=arg)})]


def op_visit(F, x, arg):
    y = F.inner(a=arg, e=2)
    got = VisitorPattern.visit(y)
    return [got, VisitorPattern.cast(F.inner, got),
            VisitorPattern.reflect(F.inner)]


def op_empty(F, x, arg):
    return [bool(x.inner0), bool(x.inner0.a), bool(F.outer().inner0.a),
            bool(F.outer().inner0.b), F.outer().n,
            repr(type(F.outer().inner0).__name__)]


def op_no_such(F, x, arg):
    return F.outer().inner0.nosuch


def op_sel(F, x, arg):
    return [FieldSelector(["inner", "a"]).get_or_none(x),
            FieldSelector.from_path("k").get_or_none(x),
            MultiFieldSelector(["inner"], ["k"])["inner"]["a"] is not None,
            [fs.path for fs in MultiFieldSelector(["inner", "a"], ["k"])],
            str(MultiFieldSelector.from_path("{.inner(.a|.b)|.k}"))]


def op_put(F, x, arg):
    y = F.mk({})
    FieldSelector(["inner", "a"]).post(y, arg)
    FieldSelector(["k"]).put(y, arg + 1)
    return y


def op_copy(F, x, arg):
    return [copy.deepcopy(x), pickle.loads(pickle.dumps(x)) == x]


def op_set(F, x, arg):
    y = F.mk({"K": 1, "inner": {"a": 2}})
    y.inner.a = arg
    try:
        y.k = "bad"
    except Exception as e:
        return [y, e, hasattr(y, "k")]


def op_n(F, x, arg):
    y = F.outer()
    out = [y.n]
    y.n = arg
    out.append(y.n)
    del y.n
    return out + [y.n]


def op_lazy(F, x, arg):
    y = F.outer(k=arg)
    return [y.z, F.outer().z, y.zs, y.zs, y.z]


def op_coerce(F, x, arg):
    y = F.inner(c=str(arg))
    out = [y.c]
    for v in ("", -1 - arg, str(-1 - arg), 8 + arg, str(9 + arg)):
        try:
            y.c = v
        except Exception as e:
            out.append(e)
        out.append(y.c)
    return out


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
NUMBER = [k for k in OPS if k in (
    "list dict list_pickle jlist record traits hash visit put set n lazy "
    "coerce empty no_such sel text bad_load copy".split())]
FLAG = ["json", "json_data", "inner_json"]
DOC = ["load", "diff", "eq"]

inner_docs = st.fixed_dictionaries({}, optional={
    "a": st.integers(0, 3), "c": st.sampled_from([0, 1, "2", "33"]), "B": st.sampled_from(["", "q"])})
docs = st.fixed_dictionaries({}, optional={
    "inner": inner_docs, "p": st.integers(0, 2).map(lambda i: {"v": i}),
    "items": st.lists(inner_docs, max_size=2),
    "m": st.dictionaries(st.sampled_from("xy"), inner_docs, max_size=2),
    "K": st.integers(0, 3), "n": st.integers(1, 2)})


@st.composite
def operations(draw, name=None):
    if name is None:
        name = draw(st.sampled_from(sorted(OPS)))
    if name in FLAG:
        return (name, draw(st.booleans()))
    if name in DOC:
        return (name, draw(docs))
    return (name, draw(st.integers(0, 5)))


@st.composite
def specs(draw):
    spec = {k: draw(st.booleans()) for k in
            ("takes", "json", "dict", "outer", "pk")}
    spec["list"] = draw(st.sampled_from(["", "p", "j"]))
    return spec


@st.composite
def cases(draw):
    spec = draw(specs())
    n = draw(st.sampled_from([2, 2, 2, 3]))
    first = draw(st.lists(operations(), min_size=1, max_size=3))
    programs = [first]
    for _ in range(n - 1):
        # mostly doing the same at the same time
        how = draw(st.sampled_from(["same", "values", "values", "other"]))
        programs.append(
            list(first) if how == "same" else
            [draw(operations(op)) for op, _arg in first] if how == "values"
            else draw(st.lists(operations(), min_size=1, max_size=3)))
    stops = draw(st.lists(st.tuples(
        st.sampled_from([0, 0, 0, 0, 1, 1, 2]), st.integers(0, 999),
        st.sampled_from([1, 1, 1, 1, 2, 3])), min_size=1, max_size=4))
    return (spec, draw(st.booleans()), [draw(docs) for _ in range(n)],
            programs, stops)


# -- running -----------------------------------------------------------------
def program(F, x, ops):
    def go():
        out = []
        for name, arg in ops:
            try:
                r = OPS[name](F, x, arg)
            except Exception as e:
                r = e
            out.append((name, r))
        return out
    return go


def prepare(F, shared, docs, programs, only=None):
    F.generic = []
    F.trait = "t" + F.uid
    if any(op[0] == "traits" for p in programs for op in p):
        MetaProperty("T" + F.uid, (Property,), {
            "__trait__": F.trait, "__module__": "lib.schema"})
    if shared:
        xs = [F.mk(docs[0])] * len(programs)
        # (reading these for the first time sets them)
        xs[0].z, xs[0].zs
    else:
        xs = [F.mk(d) for d in docs]
    return [program(F, xs[i], p) for i, p in enumerate(programs)]


def alone(case):
    """results of every program when nothing else runs, lines visited"""
    spec, shared, docs, programs = case
    want, lines = [], []
    for i in range(len(programs)):
        F = Family(spec)
        go = prepare(F, shared, docs, programs)[i]
        got, visited = sched.solo(go)
        want.append([(n, F.canon(r)) for n, r in got])
        lines.append(visited)
        F.forget()
    return want, lines


def together(case, want, stops):
    spec, shared, docs, programs = case
    F = Family(spec)
    gos = prepare(F, shared, docs, programs)
    T = sched.Together(gos, stops)
    results = T.run()
    what = "threads %s, interrupted at %s" % (short(programs), short(sorted(
        "%s:%d (%d)" % (c.co_name, n, k) for s in stops for (c, n), k in s)))
    for i, got in enumerate(results):
        check(got is not None, "thread %d died, %s", i, what)
        for (name, r), (_n, w) in zip(got, want[i]):
            same(F.canon(r), w, "%s in thread %d, %s" % (name, i, what))
    # all got the same collection types, which are usable from now on
    for kind, cls in F.generic:
        now = {"list": list_of, "dict": dict_of}[kind](F.inner)
        check(cls is now, "%s got a %s type of its own", what, kind)
        y = cls([{"a": 1}] if kind == "list" else {"k": {"a": 1}})
        check(pickle.loads(pickle.dumps(y)) == y, "%s: cannot pickle %s",
              what, short(y))
    F.forget()
    return T


def run(case, ctx):
    case, stops = case[:4], case[4]
    want, lines = alone(case)
    at = [set() for _ in want]
    for i, line, nth in stops:
        i %= len(at)
        if lines[i]:
            where, times = lines[i][line * len(lines[i]) // 1000]
            at[i].add((where, min(nth, times)))
    T = together(case, want, at)
    ctx.hit(T.switches > 0)
    ctx.event("%d switches" % min(T.switches, 4))
    if T.free:
        ctx.event("locked")


@st.composite
def sweeps(draw):
    spec = draw(specs())
    # (errors on the way in go through many functions)
    name = draw(st.sampled_from(sorted(OPS) + ["bad_load"] * 2))
    programs = [[draw(operations(name))] for _ in range(2)]
    return (spec, draw(st.booleans()), [draw(docs), draw(docs)], programs,
            draw(st.integers(0, 999)))


SWEPT = 60


def sweep(case, ctx):
    """the first thread is interrupted at every line it comes to (every nth,
    if these are many); the other one runs to its end, or halfway and again
    after the first one"""
    case, offset = case[:4], case[4]
    want, lines = alone(case)
    n = 0
    half = lines[1][len(lines[1]) // 2][0] if lines[1] else None
    step = len(lines[0]) // SWEPT + 1
    for where, times in lines[0][offset % step::step]:
        T = together(case, want, [{(where, 1)}, set()])
        n += T.switches > 0
        if n % 3 == 0 and half:
            T = together(case, want, [
                {(where, min(times, 2))}, {(half, 1)}])
    ctx.hit(n > 0)
    ctx.event("%s: %d lines" % (case[3][0][0][0], n // 20 * 20))


PARTS = [
    Part("threads", cases, run, quick=1000),
    Part("sweep", sweeps, sweep, quick=60),
]
