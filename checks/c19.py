"""C19: a property declaration gets every behaviour its arguments ask for."""
from hypothesis import strategies as st

from lib import zygote
from lib.declcheck import ILLEGAL, IMPLIED
from lib.harness import Part, Violation, check

PROPERTY = "C19"
RULE = (
    "A case is a sequence of declarations, run in a process where nothing was "
    "declared before: stock or user-made property class and arguments (type, "
    "coerce, check, required, default, lazy, read-only, JSON name and "
    "functions, clean-up function, extraneous, v1 none, item type, traits, "
    "doc), illegal declarations in between.  All are declared first, then "
    "every one is probed for every behaviour its arguments ask for, and "
    "declared again.  Non-trivial: some declaration combines three or more "
    "behaviours.")

PLAIN = ["Property", "Property", "Property", "SafeProperty", "LazyProperty",
         "ROProperty", "ROLazyProperty", "LazySafeProperty", "JsonProperty",
         "SafeJsonProperty", "V1Property"]
TYPED = ["IntProperty", "LongProperty", "IntegerProperty", "NumberProperty",
         "StringProperty", "FloatProperty", "UnicodeProperty",
         "DateProperty", "DatetimeProperty"]
COLLS = ["ListProperty", "DictProperty", "JsonListProperty",
         "JsonDictProperty"]


def has(info, what):
    return bool(info.get(what))


def draw_kw(draw, info, user=False):
    """arguments for a class with the given behaviours"""
    kw = {}

    def p(n):
        return draw(st.integers(0, n)) == n
    lazy, ro, v1 = has(info, "lazy"), has(info, "ro"), has(info, "v1")
    safe = has(info, "safe")
    typ = info.get("type")
    notype = info.get("notype")
    coll = typ in ("list", "dict")
    explicit_safe = info.get("xsafe")
    if coll and not info.get("of"):
        kw["of"] = "int"
    elif typ is None and not user and p(5) and not v1 and not notype:
        kw[draw(st.sampled_from(["list_of", "dict_of"]))] = "int"
        coll = True
    elif typ is None and p(1) and not notype:
        kw["isa"] = draw(st.sampled_from(["int", "str", "float", "intstr",
                                          "even"]))
        if p(3):
            kw["coerce"] = "f"
    elif typ is not None and not coll and p(5):
        kw["coerce"] = "f"
    if p(3):
        kw["check"] = "f"
    if not lazy and not v1 and not info.get("nolazy") and p(3):
        kw["lazy"] = True
        lazy = True
    if not ro and not explicit_safe and not v1 and p(4):
        kw["traits"] = ["ro"]
        ro = True
    if lazy:
        if not info.get("default"):
            kw["default"] = draw(st.sampled_from(["fn", "method", "fn",
                                                  "const"]))
    elif not v1 and not info.get("default"):
        how = draw(st.integers(0, 7))
        if how < 2:
            kw["default"] = draw(st.sampled_from(["const", "fn", "method"]))
        elif how == 2 and not ro and not info.get("required") and \
                "coerce" not in kw and not coll:
            kw["default"] = draw(st.sampled_from(["", 0, None, False]))
            v1 = True
        elif how == 3 and not ro and not info.get("required") and not coll:
            kw["v1_none"] = draw(st.sampled_from(["", 0, None, False]))
            v1 = True
    if not lazy and not v1 and p(3):
        kw["required"] = True
    if p(3):
        kw["json_name"] = draw(st.sampled_from(["J", "p", "j j", None]))
    if p(4):
        kw["json_out"] = "f"
    if p(4):
        kw["json_in"] = "f"
    if p(3):
        kw["compare_as"] = draw(st.integers(0, 3))
    if p(4):
        kw["extraneous"] = True
    if p(6):
        kw["doc"] = "what it is"
    if p(6) and not v1:
        kw["empty_attr"] = draw(st.sampled_from(["p_or_not", None]))
    if p(9):
        more = [t for t in ("json", "safe") if not (
            t == "safe" and ro)]
        kw["traits"] = kw.get("traits", []) + [draw(st.sampled_from(more))]
    return kw


def info_of(name, users):
    if name[0] == "u":
        return users[int(name[1:])]
    info = dict(IMPLIED[name])
    info["xsafe"] = name in ("SafeProperty", "LazySafeProperty",
                             "SafeJsonProperty", "V1Property")
    return info


def behaviours(kw):
    return len([k for k in kw if k not in ("doc",)])


@st.composite
def user_types(draw, users):
    base = draw(st.sampled_from(PLAIN[:-1] + TYPED + COLLS[:2] + [
        "u%d" % i for i in range(len(users))]))
    bases = [base]
    info = info_of(base, users)
    # (a type of another name and nothing of its own is a type, too)
    kw = {} if base[0] == "u" and draw(st.booleans()) else draw_kw(
        draw, info, user=True)
    merged = dict(info)
    if "isa" in kw:
        merged["type"] = kw["isa"]
    for k in "lazy", "required", "default":
        if kw.get(k, False) is not False:
            merged[k] = True
    if "of" in kw:
        merged["of"] = True
    if merged.get("type") is None and set(kw) & {
            "default", "check", "json_in"}:
        merged["notype"] = True     # they take or give untyped values
    for t in kw.get("traits", ()):
        merged[t] = True
    if "v1_none" in kw or kw.get("default", 1) in ("", 0, None, False):
        merged["v1"] = True
    if "safe" in kw.get("traits", ()):
        merged["xsafe"] = True
    if "required" in kw or merged.get("v1"):
        merged["nolazy"] = True
    return ({"base": bases, "kw": kw, "trait": draw(
        st.none() | st.sampled_from(["mytrait%d" % len(users)]))}, merged)


@st.composite
def histories(draw, types=0):
    users, steps = [], []
    for _ in range(types and draw(st.integers(1, types))):
        u, info = draw(user_types(users))
        steps.append(("user", u))
        users.append(info)
    n = draw(st.integers(1, 3 if types else 5))
    for _ in range(n):
        how = draw(st.integers(0, 9))
        if how == 0 and len(users) < 3:
            u, info = draw(user_types(users))
            steps.append(("user", u))
            users.append(info)
            continue
        if how == 9 and draw(st.booleans()):
            n = draw(st.integers(0, 3))
            for _ in range(draw(st.integers(1, 2))):
                n = (n + draw(st.integers(0, 3))) % 4
                steps.append(("coll", {
                    "base": "list" if n < 3 else "dict", "n": n,
                    "name": "Other" if n == 2 else "Items",
                    "of": draw(st.sampled_from(["int", "int", "str"]))}))
            continue
        if how == 1:
            steps.append(("import", "normalize.property.types"))
            continue
        names = PLAIN + TYPED + COLLS
        if users and (types or draw(st.booleans())):
            names = ["u%d" % i for i in range(len(users))]
        name = draw(st.sampled_from(names))
        d = {"cls": name, "kw": draw_kw(draw, info_of(name, users))}
        if how == 2:
            steps.append(("illegal", d, draw(
                st.sampled_from(sorted(ILLEGAL)))))
        else:
            steps.append(("decl", d, draw(st.sampled_from(
                ["plain", "json"]))))
    return {"steps": steps}


def in_fresh_process(target, case):
    kind, value = zygote.run(target, case, ("normalize", "lib.declcheck"))
    if kind == "violation":
        raise Violation(value)
    check(kind == "ok", "%s", value)
    return value


def history(case, ctx):
    in_fresh_process("lib.declcheck:history", case)
    ctx.hit(any(s[0] == "decl" and len(s[1]["kw"]) > 2
                for s in case["steps"]))
    ctx.event("%d steps" % len(case["steps"]))


PARTS = [
    Part("history", histories, history, quick=3000),
    Part("usertypes", lambda: histories(types=3), history, quick=3000),
]
