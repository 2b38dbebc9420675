import json,subprocess
prop = dict(l.split(None,1) for l in """ef7b9ff C19
0c9f6cf C27
597c1b2 C24
c18474c C07
bc0b858 C02
d3aed47 C12
e3ee2a8 C19
5754727 C28
c0a093e C28
24c858b C28
3191218 C05
6f647bb C17
f6444fd C17
f86671f C15
ee6a59a C19
e46fc7f C19
04bb2d0 C05
8ae8b5c C16
7441b20 C05
06e90d8 C07
7b5fc31 C07
0c42838 C07
3d1c30c C07
fc34bc0 C08
f355521 C05
3764c6f C07
8deeef4 C11
6af300c C09
5cd5186 C13
40d125d C13
f45c747 C13
5ab9fde C13
67346f1 C14
996eb7b C13
d1491fb C12
e043de5 C12
bf05dd4 C12
abfd830 C14
8420919 C14
cc4ac6f C14
4179789 C14
444a5fc C14
db15d7e C06
c3fe042 C15
9e8c8c7 C17
0e8019b C17
0cf4651 C05
37cb919 C17
ebbaa21 C18
63521b7 C18
8446593 C18
9182b9f C18
279978b C18
2d8b705 C19
010f7c6 C21
92b7004 C21
843e44d C19
1cfaad6 C19
93fcd11 C20
740a5b9 C21
1b0ba5f C21
e8fb3b5 C21
fd85a85 C21
5abb2f8 C22
8103213 C22
3f1cb63 C22
26a3132 C23
0967ac0 C03
c8b1e76 C15
41b7d15 C24
585d2cd C24
23985d0 C24
1104e6f C25
2bcd444 C26
355f108 C12
21ec688 C24
8515f1e C25
0b109df C26
ae5782b C26""".splitlines())
what = {
"0c9f6cf": "selectors naming an attribute of a list collection: TypeError from indexing the list",
"3191218": "str() of a record with a list or dict in a typed attribute: KeyHashError",
"ae5782b": "an AttributeError raised by an output function or nested json_data dropped the attribute from the output",
"0b109df": "json_data methods with other keyword-only arguments were given extraneous=: TypeError",
"8515f1e": "a made-up empty accessor of one base hid the attribute of that name of another",
"21ec688": "FieldSelectorAttributeError.name was None",
"355f108": "post() past an unknown attribute: KeyError or AttributeError",
"2bcd444": "two properties of one JSON key: KeyError when loading",
"1104e6f": "unknown names in primary_key: KeyError",
"23985d0": "default and comparison functions without module which want too many arguments: AttributeError",
"585d2cd": "items not of any type of a union: AttributeError instead of a coercion error",
"41b7d15": "text of field selector exceptions of put() and post() was lost",
"c8b1e76": "equal dicts filled in another order were reported as MOVED items; REMOVED named a key both have",
"0967ac0": "default functions which are types, bound methods or other callables: TypeError, or called with the record",
"26a3132": "the normalize_item hook was not told the index of the item",
"6f647bb": "comparison filter naming attributes of one collection item hid their differences",
"f6444fd": "comparison filter naming an item of a simple list or dict let the other items be compared",
"f86671f": "comparing collections with items of different derived types raised TypeError",
"ef7b9ff": "argument combinations matched by several property classes got the class looked at last, losing behaviours",
"ee6a59a": "an explicit property class whose selected class does not derive from it was returned without running __init__",
"e46fc7f": "which class a declaration got depended on the composed classes made by earlier declarations",
"04bb2d0": "records holding empty typed collections could not be hashed",
"8ae8b5c": "records holding a value of a union of types could not be hashed or compared as collection items",
"7441b20": "repr() of a JSON dict collection could not be evaluated",
"06e90d8": "list.insert() inserted the iterated item (or failed) instead of the item",
"7b5fc31": "list.pop() with an index before the start: wrong error",
"0c42838": "list.index(): wrong result or endless loop for bounds beyond the end",
"3d1c30c": "list.extend() with an item that cannot be coerced left the items before it in the list",
"fc34bc0": "dict collections from other dict collections; items that cannot be unpacked were half accepted",
"f355521": "== between a collection and a plain container of other values raised",
"3764c6f": "a coerceitem function that does not return the item type put illegal items in a collection",
"8deeef4": "from_json() of a plain record with unknown keys raised",
"6af300c": "attributes holding plain records or collections were not marshalled in",
"5cd5186": "selector paths of keys with quotes, newlines, odd names and negative indexes did not parse back",
"40d125d": "0.0, False, empty tuples were accepted as selector elements",
"f45c747": "startswith() a longer selector: IndexError",
"5ab9fde": "equal field selectors had different hashes",
"67346f1": "subscripting a multi-selector with a wildcard by an index lost the paths of that index",
"996eb7b": "path of the empty multi-selector did not parse back",
"d1491fb": "KeyError instead of a field selector exception for missing dict keys",
"e043de5": "wildcards gave the keys of dicts, and post() through them failed",
"bf05dd4": "post() to the end of a list along a path failed",
"abfd830": "deleting several items of a list by multi-selector deleted the wrong ones",
"8420919": "patching lists appended in the wrong order or failed",
"cc4ac6f": "patching with a wildcard put the first item's value in all",
"4179789": "patching all values of a dict failed",
"444a5fc": "multi-selector get on JSON dict collections failed",
"db15d7e": "types derived from list_of()/dict_of() types could not be pickled or copied",
"c3fe042": "comparing lists or dicts of unhashable plain values raised",
"9e8c8c7": "compare_as was called for unset attributes of collection items",
"0e8019b": "white space etc. in text in lists inside of collection items counted as a difference",
"0cf4651": "equal dicts inside of collection items or keys were different items if their order differs",
"37cb919": "compare_as changing the type of a value made comparing collections raise",
"ebbaa21": "a visit filter selecting some items visited all of them",
"63521b7": "apply_empty_slots of unset record attributes raised",
"8446593": "casting a plain value to a union with a record type raised",
"9182b9f": "casting to a record type without visible attributes gave a dict",
"279978b": "VisitorUnpackError could not be made",
"2d8b705": "ambiguous or illegal declarations: AttributeError for exception classes which do not exist",
"010f7c6": "to_json() of a record with V1Property attributes: TypeError",
"92b7004": "assigning None to an unset v1 attribute: KeyError",
"843e44d": "default arguments of property classes lost when combined with others",
"1cfaad6": "coll= type declared under a used name silently replaced by the earlier one",
"93fcd11": "subtypes of subtypes of types with a metaclass: TypeError",
"740a5b9": "required attributes with a false default raise",
"1b0ba5f": "an attribute declared under the name of another's pseudo-attribute was not an attribute",
"e8fb3b5": "placeholders rejected steps supported through inherited special methods",
"fd85a85": "slices of placeholders, and list() of a placeholder did not end",
"5abb2f8": "nested objects of auto records marshalled out as {}",
"8103213": "auto records could not load lists of mixed items; nested lists left raw",
"5754727": "two threads marshalling out values of a type new to the library: KeyError",
"c0a093e": "list_of()/dict_of() asked for in two threads at once gave two different types of one name",
"24c858b": "properties with a new combination of traits declared in two threads at once: PropertyTypeClash",
"d3aed47": "put of a JSON dict collection to all items (wildcard) of another JSON dict collection raised",
"597c1b2": "repr() of an error with a tuple among its positional arguments failed or lost the tuple",
"bc0b858": "a value refused (after coercion) by a subtype used as coerce function of a wider type was stored",
"c18474c": "index() and remove() of a typed list: TypeError for a missing tuple, NaN items in the list not found",
"e3ee2a8": "default arguments of a property type lost in types made from it without arguments: TypeError when combined",
"3f1cb63": "missing attributes of auto records: KeyError; assignment not reflected, deletion impossible",
}
log = dict(l.split(None,1) for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines())
import sys
extra = [h for h in log if log[h].startswith("fix:") and h not in prop]
print("missing:", extra)
order = [h for h in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h"],text=True).split() if h in prop]
kf = json.load(open("/verif/known_findings.json"))
kf["fixed"] = ["fixed: property=%s %s %s" % (prop[h].strip(), h, what[h]) for h in order]
json.dump(kf, open("/verif/known_findings.json","w"), indent=1); open("/verif/known_findings.json","a").write("\n")
