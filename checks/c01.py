"""C01: checked slots never hold an illegal value, whatever the history."""
from hypothesis import strategies as st

from lib.decl import (
    Bad, CHECK, TYPES, UNSET, V, decls, equal_value, get, is_checked,
    make_class, make_prop, mat, model_accept, typed_values,
)
from lib.harness import Part, Raised, attempt, check, short
from normalize import Record
from normalize.coll import dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonListProperty

PROPERTY = "C01"
RULE = (
    "A case is a generated record declaration (1-4 slots with type, coerce, "
    "check, required, default and JSON/extraneous variants, optionally spread "
    "over a base class and a subclass) plus a history of constructions, "
    "assignments, deletions and reads on up to three instances, with legal "
    "and illegal values.  Non-trivial: at least one operation on an existing "
    "record was rejected and at least one accepted.")


def legal(d, v):
    try:
        v = model_accept(d, mat(v), at_init=True)
        return v is not UNSET or not d.get("required")
    except Bad:
        return False


# -- slots of arbitrary declared scalar types --------------------------------
@st.composite
def histories(draw):
    n = draw(st.integers(1, 4))
    ds = [draw(decls()) for _ in range(n)]
    split = draw(st.integers(0, n))     # that many are declared on a base

    def value_for(i):
        return draw(typed_values(ds[i].get("isa")) | V.any) \
            if draw(st.integers(0, 3)) else draw(V.any)
    ops = []
    nops = draw(st.integers(1, 12))
    for j in range(nops):
        kind = draw(st.sampled_from(
            ["new", "set", "set", "set", "set", "del", "del", "copy"]))
        if j == 0:
            kind = "new"
        if kind == "new":
            init = {}
            # mostly legal: keep a value only if the model accepts it
            wild = j and draw(st.integers(0, 3)) == 0
            for i in range(n):
                d = ds[i]
                if not (d.get("required") or draw(st.integers(0, 2))):
                    continue
                v = value_for(i)
                if not wild:
                    for _ in range(4):
                        if legal(d, v):
                            break
                        v = draw(typed_values(d.get("isa")))
                    if not legal(d, v):
                        d.pop("required", None)
                        continue
                init["p%d" % i] = v
            if not wild:
                for d in ds:
                    if "default" in d and not legal(d, d["default"][1]):
                        del d["default"]
            ops.append(("new", draw(st.booleans()), init))
        else:
            who = draw(st.integers(0, 2))
            i = draw(st.integers(0, n - 1))
            if kind == "set":
                ops.append(("set", who, i, value_for(i)))
            elif kind == "copy":
                ops.append(("copy", who, i, draw(st.integers(0, 2)),
                            draw(st.integers(0, n - 1))))
            else:
                ops.append(("del", who, i))
    return (ds, split, ops)


def expect_new(ds, init):
    """-> (state, set of rejection kinds)"""
    state, bad = {}, set()
    for i, d in enumerate(ds):
        name = "p%d" % i
        try:
            if name in init:
                v = model_accept(d, mat(init[name]), at_init=True)
                if v is UNSET and d.get("required"):
                    raise Bad("required")
            elif "default" in d:
                v = model_accept(d, mat(d["default"][1]), at_init=True)
            elif d.get("required"):
                raise Bad("required")
            else:
                v = UNSET
            state[name] = v
        except Bad as e:
            bad.add(e.kind)
    return state, bad


def compare(ds, rec, state, what):
    for i, d in enumerate(ds):
        name = "p%d" % i
        got = get(rec, name)
        want = state[name]
        check(equal_value(got, want), "%s: slot %s %r reads %s, expected %s",
              what, name, d, short(got), short(want))
        if got is UNSET:
            check(not d.get("required"), "%s: required slot %s is unset",
                  what, name)
        elif is_checked(d):
            if d.get("isa"):
                check(isinstance(got, TYPES[d["isa"]]),
                      "%s: slot %s %r holds %s, not its type",
                      what, name, d, short(got))
            elif d.get("required"):
                check(got is not None, "%s: required slot %s is None",
                      what, name)
            if d.get("check"):
                check(CHECK[d["check"]](got),
                      "%s: slot %s %r holds %s, which fails its check",
                      what, name, d, short(got))


def run_history(case, ctx):
    ds, split, ops = case
    base = make_class({"p%d" % i: make_prop(d)
                       for i, d in enumerate(ds[:split])})
    cls = make_class({"p%d" % (split + i): make_prop(d)
                      for i, d in enumerate(ds[split:])}, base=base)
    live = []           # (record, model state)
    rejected = accepted = 0
    for op in ops:
        if op[0] == "new":
            _, as_dict, init = op
            state, bad = expect_new(ds, init)
            vals = {k: mat(v) for k, v in init.items()}
            r = attempt(cls, vals) if as_dict else attempt(cls, **vals)
            if bad:
                check(isinstance(r, Raised),
                      "constructing from %r accepted an illegal value (%s)",
                      init, bad)
                ctx.event("new-rejected")
            else:
                check(not isinstance(r, Raised),
                      "constructing from %r: unexpectedly %r", init, r)
                live.append((r, state))
                del live[:-3]
        elif live:
            rec, state = live[op[1] % len(live)]
            name = "p%d" % op[2]
            d = ds[op[2]]
            what = "%s %s" % (op[0], name)
            if op[0] == "del":
                r = attempt(delattr, rec, name)
                if d.get("required") or state[name] is UNSET:
                    check(isinstance(r, Raised),
                          "deleting %s %s slot was accepted",
                          "required" if d.get("required") else "unset", d)
                    rejected += 1
                    ctx.event("del-rejected")
                else:
                    check(not isinstance(r, Raised),
                          "deleting slot %s: unexpectedly %r", name, r)
                    state[name] = UNSET
                    accepted += 1
                    ctx.event("del-ok")
            else:
                if op[0] == "copy":
                    src, _ = live[op[3] % len(live)]
                    v = get(src, "p%d" % op[4])
                    if v is UNSET:
                        continue
                else:
                    v = mat(op[3])
                what += " = %s" % short(v)
                try:
                    want = model_accept(d, v) if is_checked(d) else v
                    ok = True
                except Bad as e:
                    ok = False
                    ctx.event("set-rejected-" + e.kind)
                r = attempt(setattr, rec, name, v)
                if ok:
                    check(not isinstance(r, Raised),
                          "%s on %r: unexpectedly %r", what, d, r)
                    state[name] = want
                    accepted += 1
                    ctx.event("set-ok")
                else:
                    check(isinstance(r, Raised),
                          "%s on %r was accepted: now %s", what, d,
                          short(get(rec, name)))
                    rejected += 1
        for rec, state in live:
            compare(ds, rec, state, "after %r" % (op,))
    ctx.hit(rejected and accepted)


# -- collection and record slots ---------------------------------------------
class Item(Record):
    from normalize import Property as _P
    k = _P(isa=int, required=True)
    t = _P(isa=str)


class Holder(Record):
    from normalize import Property as _P
    ints = ListProperty(of=int)
    reqints = ListProperty(of=int, required=True)
    items = ListProperty(of=Item, check=lambda x: len(x) < 3)
    jitems = JsonListProperty(of=Item, json_name="J")
    by = DictProperty(of=int)
    item = _P(isa=Item)
    either = _P(isa=(Item, int))


ITEMISH = st.one_of(
    st.integers(0, 5).map(lambda n: {"k": n}),
    st.fixed_dictionaries({"k": st.sampled_from(["4", 7, "x", None, 1.5]),
                           "t": st.sampled_from(["a", 5, ""])}),
    st.just({"t": "a"}), st.just({}), st.just({"zz": 1}),
    st.integers(0, 2), st.none(), st.just("str"))
INTISH = st.one_of(st.integers(-5, 5), st.sampled_from(
    ["3", "x", None, 2.5, "", True]))


@st.composite
def coll_cases(draw):
    def init_for(slot):
        if slot in ("ints", "reqints"):
            return draw(st.lists(INTISH if draw(st.booleans()) else
                                 st.integers(-5, 5), max_size=4) |
                        st.sampled_from([None, "abc", 5, {"b": 2, "a": 1}]))
        if slot in ("items", "jitems"):
            return draw(st.lists(
                ITEMISH if draw(st.booleans()) else
                st.integers(0, 5).map(lambda n: {"k": n}), max_size=4) |
                st.sampled_from(["abc", 5]))
        if slot == "by":
            return draw(st.dictionaries(
                st.sampled_from("abc"), INTISH if draw(st.booleans()) else
                st.integers(0, 5), max_size=3) | st.just("abc"))
        return draw(ITEMISH)
    slots = ["ints", "reqints", "items", "jitems", "by", "item", "either"]
    init = {"reqints": draw(st.lists(st.integers(0, 9), max_size=2))}
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        s = draw(st.sampled_from(slots))
        k = draw(st.sampled_from(["set", "set", "set", "del", "mutate"]))
        if k == "set":
            ops.append((k, s, init_for(s)))
        elif k == "mutate":
            ops.append((k, s, draw(st.integers(-2, 2)),
                        draw(INTISH | ITEMISH)))
        else:
            ops.append((k, s))
    return (init, ops)


def m_item(v):
    """model of Item(v): dict literal or raises"""
    if isinstance(v, dict):
        if not v:
            raise Bad("required")
        if set(v) - {"k", "t"} or "k" not in v:
            raise Bad("coerce")
        k = v["k"]
        if not isinstance(k, int):
            try:
                k = int(k)
            except Exception:
                raise Bad("coerce")
        out = {"k": k}
        if "t" in v:
            out["t"] = v["t"] if isinstance(v["t"], str) else str(v["t"])
        return out
    raise Bad("coerce")


def m_int(v):
    if isinstance(v, int):
        return v
    try:
        return int(v)
    except Exception:
        raise Bad("coerce")


def m_slot(slot, v):
    if slot in ("ints", "reqints", "items", "jitems"):
        f = m_int if slot.endswith("ints") else m_item
        if isinstance(v, str):
            raise Bad("coerce")
        if isinstance(v, dict):
            if slot == "jitems":
                raise Bad("coerce")
            v = [v[k] for k in sorted(v)]
        if v is None:
            v = []
        if not isinstance(v, list):
            raise Bad("coerce")
        out = [f(x) for x in v]
        if slot == "items" and len(out) >= 3:
            raise Bad("check")
        return out
    if slot == "by":
        if not isinstance(v, dict):
            raise Bad("coerce")
        return {k: m_int(x) for k, x in v.items()}
    if slot == "item":
        return m_item(v)
    if slot == "either":
        # a type union has no usable default coerce function
        if isinstance(v, int):
            return v
        raise Bad("coerce")


def dump(v):
    if isinstance(v, Item):
        out = {"k": v.k}
        if get(v, "t") is not UNSET:
            out["t"] = v.t
        return out
    if hasattr(v, "itertuples"):
        if type(v).colltype is dict:
            return {k: dump(x) for k, x in v.itertuples()}
        return [dump(x) for x in v]
    return v


SLOT_TYPES = {"ints": list_of(int), "reqints": list_of(int),
              "items": list_of(Item), "by": dict_of(int), "item": Item,
              "either": (Item, int)}


def run_coll(case, ctx):
    init, ops = case
    rec = Holder(**init)
    other = Holder(reqints=[7])
    state = {"reqints": list(init["reqints"])}
    rejected = accepted = 0
    for op in ops:
        slot = op[1]
        if op[0] == "set":
            try:
                want = m_slot(slot, op[2])
                ok = True
            except Bad:
                ok = False
            r = attempt(setattr, rec, slot, op[2])
            check(isinstance(r, Raised) != ok,
                  "assigning %r to %s: %s", op[2], slot,
                  r if isinstance(r, Raised) else "accepted")
            if ok:
                state[slot] = want
        elif op[0] == "del":
            ok = slot in state and slot != "reqints"
            r = attempt(delattr, rec, slot)
            check(isinstance(r, Raised) != ok, "deleting %s: %s", slot,
                  r if isinstance(r, Raised) else "accepted")
            if ok:
                del state[slot]
        else:
            # mutate a collection in place: its items stay of the item type
            if slot not in state or slot in ("item", "either"):
                continue
            coll = getattr(rec, slot)
            f = m_int if slot in ("ints", "reqints", "by") else m_item
            try:
                new = f(op[3])
                ok = True
            except Bad:
                ok = False
            if slot == "by":
                r = attempt(coll.__setitem__, "k", op[3])
                if ok:
                    state[slot]["k"] = new
            elif op[2] == 0 and state[slot]:
                r = attempt(coll.__setitem__, -1, op[3])
                if ok:
                    state[slot][-1] = new
            else:
                r = attempt(coll.append, op[3])
                if ok:
                    state[slot].append(new)
            check(isinstance(r, Raised) != ok, "putting %r into %s: %s",
                  op[3], slot, r if isinstance(r, Raised) else "accepted")
        rejected += not ok
        accepted += ok
        for s in ("ints", "reqints", "items", "jitems", "by", "item",
                  "either"):
            got = get(rec, s)
            want = state.get(s, UNSET)
            check(dump(got) == want and not isinstance(got, list),
                  "after %r: slot %s is %s, expected %s", op, s, short(got),
                  short(want))
            if got is not UNSET:
                if s in SLOT_TYPES:
                    check(isinstance(got, SLOT_TYPES[s]),
                          "after %r: %s holds a %s", op, s, type(got))
                if s not in ("item", "either"):
                    it = Item if s in ("items", "jitems") else int
                    vals = [v for k, v in got.itertuples()]
                    check(all(isinstance(x, it) for x in vals),
                          "after %r: %s holds items %s", op, s, short(vals))
        check(list(other.reqints) == [7] and get(other, "ints") is UNSET,
              "another record changed")
    ctx.hit(rejected and accepted)


PARTS = [
    Part("history", histories, run_history, quick=2500, thorough=60000),
    Part("collections", coll_cases, run_coll, quick=1200, thorough=30000),
]
