"""Reference model of the JSON form of schema values, written from doc/*.rst
and the documentation of Property(json_name=, json_in=, json_out=)."""
from hypothesis import strategies as st

from lib.schema import CODECS, JNAMES, NAMES, SCALAR, json_any, values

SMALL = [0, 1, 2, 3, -1, 7, 2 ** 31, 2 ** 50, 2 ** 50 + 1, -2 ** 50 - 1,
         2 ** 53 + 1, 2 ** 64, -10 ** 30]


def jscalar(v):
    """scalars and plain data as to_json() gives them"""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        # (too big for JavaScript and friends)
        return str(v) if abs(v) > 2 ** 50 else v
    if isinstance(v, dict):
        return {k: jscalar(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jscalar(x) for x in v]
    return v


def jname(f):
    return f.get("jn", f["n"])


def out(schema, t, v, extraneous, top=True):
    """JSON data of a literal value.  top: the outermost call, to_json(),
    which does not merge unknown keys"""
    if t[0] == "s":
        if t[1] == "any":
            return jscalar(v[1])
        if t[1] == "date":
            return "%04d-%02d-%02d" % v[1:]
        if t[1] == "dt":
            return "%04d-%02d-%02dT%02d:%02d:%02d" % v[1:]
        return jscalar(v)
    if t[0] == "l":
        return [out(schema, t[1], x, extraneous, False) for x in v[1]]
    if t[0] == "d":
        return {k: out(schema, t[1], x, extraneous, False)
                for k, x in v[1].items()}
    rec = schema["recs"][v[1]]
    d = {}
    for f in rec["fields"]:
        if f["n"] not in v[2] or f.get("x") and not extraneous or \
                jname(f) is None:
            continue
        x = v[2][f["n"]]
        if f.get("cod"):
            d[jname(f)] = CODECS[f["cod"]][1](x)
        else:
            d[jname(f)] = out(schema, f["t"], x, extraneous, False)
    if len(v) > 3 and extraneous and not top:
        for k, x in v[3].items():
            if k not in d:
                d[k] = jscalar(x)
    return d


def unknown_for(schema):
    """strategy factory of unknown keys of record k"""
    def fn(k):
        rec = schema["recs"][k]
        used = set(jname(f) for f in rec["fields"])
        # python names of renamed attributes are unknown keys, too
        keys = [x for x in NAMES + JNAMES + ["zz", "unknown_json_keys",
                                             "values"] if x not in used]
        return st.dictionaries(st.sampled_from(keys), small_any, max_size=2)
    return fn


# (integers beyond 2**50 come out as text, which is not invertible there)
small_any = json_any

FEAT = dict(cod=0.3, scalars=["int", "str", "str", "bool", "float", "any",
                              "date", "dt", "num"],
            items=["int", "str", "bool", "float"])


def jvalues(schema, t=("r", 0), unknown=True, **kw):
    return values(schema, t, scalars={
        "num": st.integers(-3, 9) | st.sampled_from([0.5, 2.0, 2 ** 60]),
    }, unknown=unknown_for(schema) if unknown else None, **kw)


def has_unknown(v):
    if isinstance(v, tuple) and v and v[0] == "R":
        return len(v) > 3 or any(has_unknown(x) for x in v[2].values())
    if isinstance(v, tuple) and v and v[0] in ("L", "D"):
        return any(has_unknown(x) for x in (
            v[1] if v[0] == "L" else v[1].values()))
    return False


def drop_extra(schema, t, v):
    """what survives a round trip without extraneous data"""
    if t[0] == "l":
        return ("L", [drop_extra(schema, t[1], x) for x in v[1]])
    if t[0] == "d":
        return ("D", {k: drop_extra(schema, t[1], x)
                      for k, x in v[1].items()})
    if t[0] == "r":
        fl = {f["n"]: f for f in schema["recs"][v[1]]["fields"]}
        return ("R", v[1], {
            n: drop_extra(schema, fl[n]["t"], x)
            for n, x in v[2].items() if not fl[n].get("x")})
    return v


def drop_top_unknown(v):
    return v[:3] if v[0] == "R" else v
