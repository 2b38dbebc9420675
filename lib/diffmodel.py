"""Reference model of comparisons, on literals (see lib.schema).

``expected()`` gives the list of reports (kind, base path, other path) which
comparing two values should give.  Which of the items that are on one side
only are matched with each other by similarity is not predicted, but read off
the reports given (``evidence``) and checked: one to one, and most similar
first."""
import collections
import re
import unicodedata

from lib.harness import check, short
from lib.schema import COMPARE_AS, compare_item_as

NOTHING = "<nothing>"      # a distinct object; compared with 'is'
NOTHING = type("Nothing", (), {"__repr__": lambda self: "(nothing)"})()

DEFAULTS = dict(
    ignore_ws=True, ignore_case=False, unicode_normal=True, unchanged=False,
    ignore_empty_slots=False, ignore_empty_items=False, duck_type=False,
    extraneous=False, compare_filter=None, fuzzy_match=True, moved=False,
    recurse=False)

ANY = ("s", "any")
PY = ("s", "py")        # result of a compare_as function


class Modulo(object):
    """functions which are not plain ones"""
    def __init__(self, n):
        self.n = n

    def __call__(self, n):
        return n % self.n if isinstance(n, int) else n

    def pad(self, x):
        return " %s " % (x,) if self.n else None


COMPARE_AS.update({
    "lower": lambda x: x.lower() if isinstance(x, str) else x,
    "mod": Modulo(3),
    "same": lambda: "same",
    "none": lambda x: None,
    "neg": lambda self, x: x if x not in (0, "") else None,
    "pad": Modulo(3).pad,
    "len": len,
})


def compare_as(name, v):
    """on a python value"""
    return {
        "lower": lambda: v.lower() if isinstance(v, str) else v,
        "mod": lambda: v % 3 if isinstance(v, int) else v,
        "same": lambda: "same",
        "none": lambda: None,
        "neg": lambda: v if v not in (0, "") else None,
        "pad": lambda: " %s " % (v,),
        "len": lambda: len(v),
    }[name]()


# variants of the hooks of DiffOptions; each leaves alone what is no text or
# number
def _text(fn):
    return lambda v, *a: fn(v, *a) if isinstance(v, str) else v


def _int(fn):
    return lambda v, *a: fn(v, *a) if type(v) is int else v


HOOKS = {
    "normalize_whitespace": {
        "all": lambda v: re.sub(r"\s", "", v),
        "lines": lambda v: v.replace("\n", " "),
        "keep": lambda v: v},
    "normalize_case": {
        "title": lambda v: v.title(),
        "first": lambda v: v[:1].upper() + v[1:],
        "keep": lambda v: v},
    "normalize_unf": {
        "bare": lambda v: "".join(
            c for c in unicodedata.normalize("NFD", v)
            if not unicodedata.combining(c)),
        "keep": lambda v: v},
    "normalize_text": {         # of what the others made of it
        "one": lambda v: v[:1],
        "sorted": lambda v: "".join(sorted(v)),
        "size": lambda v: str(len(v))},
    "value_is_empty": {
        "zero": lambda v: v is None or v == "" or type(v) is int and v == 0,
        "a": lambda v: isinstance(v, str) and v.lower() == "a",
        "never": lambda v: False},
    "normalize_val": {
        "half": _int(lambda v: v // 2),
        "up": _text(lambda v: v.upper()),
        "same": lambda v: "t" if isinstance(v, str) else v},
    "normalize_slot": {
        "some": _text(lambda v, n: v[:1] if n in "abc" else v),
        "names": _text(lambda v, n: v + n),
        "ints": _int(lambda v, n: 7 if n in ("a", "id", "T") else v)},
    "normalize_object_slot": {
        "ifset": _text(lambda v, there: v[:1] if "a" in there else v),
        "count": _int(lambda v, there: v % 2 if len(there) > 2 else v)},
    "normalize_item": {
        "even": _text(lambda v, n, k: v if k in (0, 2, 4, "a", "c")
                      else "odd"),
        "short": _text(lambda v, n, k: v[:1] if n < 3 else v),
        "ints": _int(lambda v, n, k: v % 2)},
    "items_equal": {
        "case": lambda a, b: a.lower() == b.lower() if isinstance(a, str) and
        isinstance(b, str) else a == b,
        "near": lambda a, b: abs(a - b) <= 1 if type(a) is int and
        type(b) is int else a == b,
        "always": lambda a, b: True,
        "is": lambda a, b: False},
    "is_filtered": {
        "names": lambda n, fs: n in ("a", "name", "kids"),
        "deep": lambda n, fs: len(fs) > 1 and n in ("b", "c", "id", "a"),
        "under": lambda n, fs: len(fs) > 2},
    "record_id": {
        "first": lambda ident: ident[:1],
        "text": lambda ident: tuple(x for x in ident if isinstance(x, str))},
}


class Filter(object):
    """a set of paths; None in a path stands for every item"""
    def __init__(self, paths):
        self.paths = [tuple(p) for p in paths]

    def full(self):
        return any(not p for p in self.paths)

    def sub(self, key):
        if self.full():
            return self
        got = [p[1:] for p in self.paths if p[0] is None or p[0] == key]
        return Filter(got) if got else None


class Diff(object):
    def __init__(self, schema, opts=None, evidence=()):
        self.s = schema
        self.o = dict(DEFAULTS, **(opts or {}))
        # the other side has plain objects, not records
        self.alien = self.o.pop("alien", False)
        # overridden hooks of DiffOptions: {hook: variant}
        self.h = {k: HOOKS[k][x] for k, x in (
            self.o.pop("hooks", None) or {}).items()}
        f = self.o["compare_filter"]
        self.filter = Filter(f) if f else None
        # (base, other) of the reports given
        self.evidence = [(tuple(b), tuple(c)) for b, c in evidence]
        self.out = []
        self.events = collections.Counter()

    # -- values
    def text(self, v):
        if self.o["ignore_ws"]:
            v = self.h["normalize_whitespace"](v) if \
                "normalize_whitespace" in self.h else \
                " ".join(x for x in re.split(r"\s+", v) if x)
        if self.o["ignore_case"]:
            v = self.h["normalize_case"](v) if \
                "normalize_case" in self.h else v.upper()
        if self.o["unicode_normal"]:
            v = self.h["normalize_unf"](v) if \
                "normalize_unf" in self.h else \
                unicodedata.normalize("NFC", v)
        return self.h["normalize_text"](v) if "normalize_text" in self.h \
            else v

    def norm(self, v):
        """a python scalar (or plain list or dict)"""
        if isinstance(v, str):
            v = self.text(v)
        if self.o["ignore_empty_slots"]:
            if "value_is_empty" in self.h:
                if self.h["value_is_empty"](v):
                    v = NOTHING
            elif v in (None, "") and not isinstance(v, (int, float)):
                v = NOTHING
        if "normalize_val" in self.h and v is not NOTHING:
            v = self.h["normalize_val"](v)
        return v

    def slotnorm(self, f, v):
        v = self.norm(v)
        if "normalize_slot" in self.h and v is not NOTHING:
            v = self.h["normalize_slot"](v, f["n"])
        return v

    def itemnorm(self, v, n, k, cia=False):
        """an item which is no record, of a collection of n items"""
        if "normalize_item" in self.h:
            v = self.h["normalize_item"](v, n, k)
        if cia:
            v = compare_item_as(v)
        return self.norm(v)

    @staticmethod
    def py(t, v):
        if isinstance(v, tuple) and v[0] == "A":
            return v[1]
        return v

    def slot(self, f, d):
        """(type, value) in a record slot, cleaned up; scalars as python"""
        t = f["t"]
        if f["n"] not in d:
            return t, NOTHING
        v = d[f["n"]]
        if t[0] == "s" and "normalize_object_slot" in self.h:
            v = self.h["normalize_object_slot"](self.py(t, v), set(d) - {"unknown_json_keys"})
        if f.get("ca"):
            v = compare_as(f["ca"], v[1] if t[0] in "ld" else self.py(t, v))
            return PY, self.slotnorm(f, v)
        if t[0] == "s":
            return t, self.slotnorm(f, self.py(t, v))
        return t, v

    # -- identity
    def fields(self, k):
        rec = self.s["recs"][k]
        fields = sorted(rec["fields"], key=lambda f: f["n"])
        if rec["json"]:
            fields = sorted(fields + [
                {"n": "unknown_json_keys", "t": ANY, "x": True}],
                key=lambda f: f["n"])
        return fields

    def ident(self, t, v, flt):
        if t[0] == "r":
            fields = self.fields(t[1])
            pk = self.s["recs"][t[1]]["pk"]
            if pk and flt and not all(flt.sub(n) for n in pk):
                pk = None
            if pk:
                by = {f["n"]: f for f in fields}
                fields = [by[n] for n in pk]
            else:
                fields = [f for f in fields if not f.get("x") and (
                    not flt or flt.sub(f["n"]))]
            out = []
            for f in fields:
                if f["n"] not in v[2]:
                    out.append(self.slotnorm(f, None))
                    continue
                st, sv = self.slot(f, v[2])
                if st[0] == "s":
                    out.append(sv)
                else:
                    out.append(self.ident(
                        st, sv, flt and flt.sub(f["n"])))
            return tuple(out)
        if t[0] in "ld":
            if t[0] == "l":
                items = list(enumerate(v[1]))
            else:
                items = sorted(v[1].items(), key=lambda kv: repr(kv[0]))
            if t[1][0] == "s":
                return tuple(self.itemnorm(self.py(t[1], x), len(items), k,
                                           t[2] == "cia")
                             for k, x in items if not flt or flt.sub(k))
            return tuple(self.ident(t[1], x, flt and flt.sub(k))
                         for k, x in items if not flt or flt.sub(k))
        return self.norm(self.py(t, v))

    # -- reports
    def report(self, kind, a, b):
        self.out.append((kind, a, b))

    def top(self, t, a, b):
        self.descend(t, a, b, (), (), self.filter)
        return self.out

    def descend(self, t, a, b, fa, fb, flt):
        if t[0] == "r":
            if self.alien and a is NOTHING:
                self.report("ADDED", fa, fb)
            else:
                self.record(self.kind(a, b), a, b, fa, fb, flt)
        elif t[0] in "ld":
            if t[1][0] == "s":
                self.simple(t[0], a, b, fa, fb, t[2] == "cia", flt)
            else:
                self.items(t, a, b, fa, fb, flt)
        else:
            x = b if a is NOTHING else a
            self.simple("l" if isinstance(x, list) else "d", a, b, fa, fb,
                        flt=flt)

    @staticmethod
    def kind(a, b):
        """the record type whose attributes are compared"""
        return (b if a is NOTHING else a)[1]

    @staticmethod
    def same_type(a, b):
        """of two values of one declared type"""
        return not (isinstance(a, tuple) and isinstance(b, tuple) and
                    a[0] == b[0] == "R" and a[1] != b[1])

    def pair(self, t, a, b, fa, fb, flt):
        """matched items"""
        if self.same_type(a, b) or self.o["duck_type"]:
            self.descend(t, a, b, fa, fb, flt)
        else:
            self.report("MODIFIED", fa, fb)

    def comparable(self, t, v):
        if v is NOTHING:
            return False
        return t[0] in "rld" or isinstance(v, (list, dict))

    def record(self, k, a, b, fa, fb, flt):
        unch = self.o["unchanged"]
        da, db = ({} if x is NOTHING else dict(
            x[2], **({"unknown_json_keys": ("A", x[3])} if len(x) > 3
                     else {})) for x in (a, b))
        for f in self.fields(k):
            if f.get("x") and not self.o["extraneous"]:
                continue
            sub = flt and flt.sub(f["n"])
            if flt and not sub:
                continue
            if "is_filtered" in self.h and self.h["is_filtered"](
                    f["n"], fa + (f["n"],)):
                continue
            ta, va = self.slot(f, da)
            tb, vb = self.slot(f, db)
            if va is NOTHING and vb is NOTHING:
                continue
            pa, pb = fa + (f["n"],), fb + (f["n"],)
            one = (va is NOTHING) != (vb is NOTHING)
            t = tb if va is NOTHING else ta
            match = not one and ta == tb and type(va) is type(vb) and \
                self.same_type(va, vb)
            if (self.comparable(ta, va) or self.comparable(tb, vb)) and (
                    match or self.o["duck_type"] or
                    self.o["ignore_empty_slots"] and one) and not (
                        self.alien and va is NOTHING and t[0] == "r"):
                if not one:
                    self.descend(t, va, vb, pa, pb, sub)
                    continue
                outer, self.out = self.out, []
                self.descend(t, va, vb, pa, pb, sub)
                inner, self.out = self.out, outer
                kinds = set(x[0] for x in inner) - {"NO_CHANGE"}
                check(len(kinds) < 2, "model: %r", kinds)
                if kinds:
                    self.report(kinds.pop(), pa, pb)
                elif unch:
                    self.report("NO_CHANGE", pa, pb)
            elif one:
                self.report("ADDED" if va is NOTHING else "REMOVED", pa, pb)
            elif not self.h["items_equal"](va, vb) if "items_equal" in \
                    self.h else va != vb:
                self.report("MODIFIED", pa, pb)
            elif unch:
                self.report("NO_CHANGE", pa, pb)

    @staticmethod
    def bag(pairs):
        """[(key, value)] -> [(value, number of equal ones before, key)]"""
        seen, out = [], []
        for k, v in pairs:
            out.append((v, sum(1 for x in seen if x == v), k))
            seen.append(v)
        return out

    @staticmethod
    def same_keys_first(items):
        """items of dicts which are equal under the same key belong
        together"""
        a, b = items
        same = [x for x in a if any(x[0] == y[0] and x[1] == y[1]
                                    for y in b)]
        keys = [k for k, _ in same]
        return [same + [x for x in xs if x[0] not in keys] for xs in items]

    @staticmethod
    def split(xs, ys):
        """pairs of keys with equal (value, seq); what is left of each"""
        both, ys = [], list(ys)
        only = []
        for v, n, k in xs:
            for y in ys:
                if y[1] == n and y[0] == v:
                    both.append((k, y[2]))
                    ys.remove(y)
                    break
            else:
                only.append((v, n, k))
        return both, only, ys

    def unmoved(self, both, fa, fb):
        for ka, kb in both:
            if self.o["moved"] and ka != kb:
                self.report("MOVED", fa + (ka,), fb + (kb,))
            elif self.o["unchanged"]:
                self.report("NO_CHANGE", fa + (ka,), fb + (kb,))

    @staticmethod
    def entries(c):
        return [] if c is NOTHING else list(
            enumerate(c) if isinstance(c, list) else c.items())

    def contents(self, v):
        return v[1] if isinstance(v, tuple) else v

    def simple(self, kind, a, b, fa, fb, cia=False, flt=None):
        bags = []
        for c in a, b:
            ent = self.entries(self.contents(c))
            pairs = [(k, self.itemnorm(self.py(None, v), len(ent), k, cia))
                     for k, v in ent]
            bags.append([(k, v) for k, v in pairs if v is not NOTHING and
                         (not flt or flt.sub(k))])
        if kind == "d":
            bags = self.same_keys_first(bags)
        bags = [self.bag(x) for x in bags]
        both, removed, added = self.split(*bags)
        self.unmoved(both, fa, fb)
        rk = [k for _, _, k in removed]
        ak = [k for _, _, k in added]
        for k in rk:
            if k in ak:
                self.report("MODIFIED", fa + (k,), fb + (k,))
            else:
                self.report("REMOVED", fa + (k,), fb)
        for k in ak:
            if k not in rk:
                self.report("ADDED", fa, fb + (k,))
        self.events["simple"] += 1

    def items(self, t, a, b, fa, fb, flt):
        force = a is NOTHING or b is NOTHING
        if self.alien and a is NOTHING:
            # a plain list; what its items are is not known
            for k, _ in self.entries(self.contents(b)):
                self.report("ADDED", fa, fb + (k,))
            return
        bags, vals = [], []
        for c in a, b:
            ent = self.entries(self.contents(c))
            pairs = []
            for k, v in ent:
                if flt and not flt.sub(k):
                    continue
                ident = self.ident(
                    ("r", v[1]) if t[1][0] == "r" and
                    not self.o["duck_type"] else t[1],
                    v, flt and flt.sub(k))
                if "record_id" in self.h:
                    ident = self.h["record_id"](ident)
                if self.o["ignore_empty_items"] and nested_empty(ident):
                    continue
                pairs.append((k, ident))
            bags.append(pairs)
            vals.append(dict(ent))
        if t[0] == "d":
            bags = self.same_keys_first(bags)
        bags = [self.bag(x) for x in bags]

        def sub(k):
            return flt and flt.sub(k)

        if self.o["recurse"]:
            keys = [[k for _, _, k in x] for x in bags]
            for k in keys[0]:
                if k in keys[1]:
                    self.pair(t[1], vals[0][k], vals[1][k], fa + (k,),
                              fb + (k,), sub(k))
                else:
                    self.report("REMOVED", fa + (k,), fb)
            for k in keys[1]:
                if k not in keys[0]:
                    self.report("ADDED", fa, fb + (k,))
            return
        both, removed, added = self.split(*bags)
        if force:
            for _, _, k in removed:
                self.descend(t[1], vals[0][k], NOTHING, fa + (k,), fb + (k,),
                             sub(k))
            for _, _, k in added:
                self.descend(t[1], NOTHING, vals[1][k], fa + (k,), fb + (k,),
                             sub(k))
            return
        for ka, kb in both:
            self.pair(t[1], vals[0][ka], vals[1][kb], fa + (ka,),
                      fb + (kb,), sub(ka))
        self.unmoved(both, fa, fb)
        self.events["matched"] += len(both)
        if self.o["fuzzy_match"] and removed and added:
            for ka, kb in self.similar(removed, added, fa, fb):
                removed = [x for x in removed if x[2] != ka]
                added = [x for x in added if x[2] != kb]
                n = len(self.out)
                self.pair(t[1], vals[0][ka], vals[1][kb], fa + (ka,),
                          fb + (kb,), sub(ka))
                diffs = any(x[0] != "NO_CHANGE" for x in self.out[n:])
                if self.o["moved"] and ka != kb:
                    self.report("MOVED", fa + (ka,), fb + (kb,))
                elif self.o["unchanged"] and not diffs:
                    self.report("NO_CHANGE", fa + (ka,), fb + (kb,))
                self.events["similar"] += 1
        for _, _, k in removed:
            self.report("REMOVED", fa + (k,), fb)
        for _, _, k in added:
            self.report("ADDED", fa, fb + (k,))

    def similar(self, removed, added, fa, fb):
        """pairs of keys, from the evidence"""
        na, nb = len(fa), len(fb)
        rem = {k: v for v, _, k in removed}
        add = {k: v for v, _, k in added}
        pairs = []
        for base, other in self.evidence:
            if base[:na] == fa and other[:nb] == fb and len(base) > na and \
                    len(other) > nb:
                ka, kb = base[na], other[nb]
                if ka in rem and kb in add and (ka, kb) not in pairs:
                    pairs.append((ka, kb))
        for i in 0, 1:
            ks = [p[i] for p in pairs]
            check(len(set(ks)) == len(ks), "items under %r/%r matched more "
                  "than once: %s", fa, fb, short(pairs))
        scores = {p: score(rem[p[0]], add[p[1]]) for p in pairs}
        for (ka, kb), (match, sc) in scores.items():
            check(match, "items %r and %r (under %r/%r) matched, but have "
                  "nothing in common: %s, %s", ka, kb, fa, fb,
                  short(rem[ka]), short(add[kb]))
        for ka in rem:
            for kb in add:
                match, sc = score(rem[ka], add[kb])
                if match:
                    check(any((p[0] == ka or p[1] == kb) and x[1] >= sc
                              for p, x in scores.items()),
                          "items %r and %r (under %r/%r) are more similar "
                          "than what they were matched with: %s, %s; "
                          "matched: %s", ka, kb, fa, fb, short(rem[ka]),
                          short(add[kb]), short(pairs))
        return pairs


def nested_empty(x):
    if isinstance(x, tuple):
        return all(nested_empty(y) for y in x)
    return x is NOTHING or x is None or x == ""


def falsy(x):
    if isinstance(x, tuple):
        return any(falsy(y) for y in x)
    return x is NOTHING or not x


def score(a, b):
    n = min(len(a), len(b))
    match = sum(1 for x, y in zip(a, b) if x == y and not falsy(x))
    differ = sum(1 for x, y in zip(a, b) if x != y)
    return match, match - differ - (max(len(a), len(b)) - n)


KINDS = {"none": "NO_CHANGE", "added": "ADDED", "removed": "REMOVED",
         "modified": "MODIFIED", "moved": "MOVED"}


def reports(diffs):
    """what a diff iterator gave"""
    return [(KINDS[d.diff_type.canonical_name], tuple(d.base.selectors),
             tuple(d.other.selectors)) for d in diffs]


def agree(schema, t, a, b, opts, got, what):
    """check reports against the model; returns the model"""
    m = Diff(schema, opts, [(x[1], x[2]) for x in got])
    want = m.top(t, a, b)
    extra = collections.Counter(map(repr, got))
    extra.subtract(collections.Counter(map(repr, want)))
    more = sorted(k for k, n in extra.items() if n > 0)
    less = sorted(k for k, n in extra.items() if n < 0)
    check(not more and not less, "%s: reported %s%s", what,
          "wrongly %s" % short(more, 500) if more else "",
          ", not reported %s" % short(less, 500) if less else "")
    return m
