import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Checked slots never hold an illegal value, whatever the operation history",
  "After any sequence of constructions, attribute assignments and deletions on records, every type-, check- or required-constrained slot that is set holds a value of its declared type which passes its check, and a required slot is always set and, where it has no declared type, never None. "
  "Each operation either succeeds with the effect its declaration prescribes (later reads return exactly the accepted value, a deleted slot reads as unset), or raises and leaves the whole record exactly as it was.",
  ["histories", "programs", "inputs"],
  "all record types declared from type/coerce/check/required/default combinations, all sequences of construct, assign, delete and read with legal and illegal values",
  "Tests assign a handful of values to a handful of fixed records once; the guarantee ranges over every declaration and every history of operations, including failing ones followed by further use.",
  ["normalize/property/__init__.py", "normalize/record/__init__.py"],
  [("checked setter and deleter", "normalize/property/__init__.py SafeProperty"), ("type-safe value pipeline", "normalize/property/__init__.py Property.type_safe_value")],
  [dict(name="slot values", meaning="instance dictionary keyed by property name", where="record instance __dict__")],
  ["getattr/setattr/delattr on records", "constructor"])

p("C02", "Coercion: type test, then coerce, then check, with the documented errors",
  "A value already of the declared type is stored as the very same object without calling the coerce function; any other value is passed to the coerce function (by default the type itself) exactly once and the result must be of the declared type. "
  "The check function sees exactly the value about to be stored; a failing or wrongly typed coercion raises a coercion error (a TypeError), a failing check or a missing required value raises a ValueError. "
  "Only at construction, a coercion to None on an optional slot leaves that slot unset.",
  ["inputs", "programs"],
  "all declared types (single, tuple, subtype), coerce functions (raising, None-returning, wrong-type-returning), check functions, and values of any type, both at construction and on assignment",
  "Tests exercise a few type/coerce pairs; call counts, object identity and the error class for every combination of type, coerce outcome, check outcome and required-ness are not sampled.",
  ["normalize/property/__init__.py", "normalize/subtype.py", "normalize/exc.py"],
  [("type_safe_value", "normalize/property/__init__.py"), ("init_prop", "normalize/property/__init__.py")])

p("C03", "Read-only slots never change; lazy slots are computed at most once, on demand",
  "Assigning to or deleting a read-only attribute always raises an AttributeError and never changes its value; its value is fixed at construction (or, if lazy, by its first read). "
  "A lazy attribute's default function is not called during construction, is called exactly once by the first read of an unset slot, its result is type-checked and remembered, and a failed computation stores nothing so that the next read tries again. "
  "Function defaults give each record its own fresh value, and an explicit value given to the constructor or assigned always takes precedence over the default.",
  ["histories", "programs"],
  "all combinations of read-only, lazy, type, coerce, check and default declarations; all interleavings of reads, writes, deletes and failing computations on several instances",
  "Tests read each lazy or read-only attribute once or twice; call counts across histories, failures followed by retries and combinations of traits are not covered.",
  ["normalize/property/__init__.py", "normalize/property/meta.py"],
  [("LazyProperty/ROLazyProperty/LazySafeProperty getters", "normalize/property/__init__.py"), ("get_default", "normalize/property/__init__.py")])

p("C04", "Construction: keyword and mapping forms agree, unknown names are rejected",
  "Constructing a record from keyword arguments and from a mapping with the same items gives equal records with the same slots set, or fails with the same kind of error; giving both a non-empty mapping and keywords is an error, as is any name that is not a property of the type. "
  "Every required property must be given or defaulted, eager defaults appear in every record and unset optional properties stay unset (reading them raises AttributeError). "
  "A subclass has all the properties of its bases, behaving the same, plus its own; its own declarations take precedence.",
  ["inputs", "programs"],
  "all record types (with inheritance chains and overrides) and all subsets of known and unknown initialisers",
  "Tests construct few record types with fixed arguments; the agreement of both forms and of inheritance over arbitrary declarations and argument sets is not sampled.",
  ["normalize/record/__init__.py", "normalize/record/meta.py", "normalize/property/__init__.py"],
  [("Record.__init__", "normalize/record/__init__.py"), ("RecordMeta", "normalize/record/meta.py")])

p("C05", "Record equality, hashing and repr obey their laws",
  "Equality of records is an equivalence relation: two records are equal exactly when they have the same type and every non-extraneous attribute is either unset in both or equal in both; != is always its negation. "
  "Equal hashable records have equal hashes; a record's identity is made of its primary key attributes, or else of all non-extraneous ones, and its hash depends on these only. "
  "Collections with the same item type are equal exactly when they hold equal items, and those of different item types are not. Records are hashable unless their identity holds an unhashable value. str() of any record is short text with its type and the beginning of its identity, and never fails. "
  "Evaluating repr(x) with the type names in scope gives a record equal to x with the same slots set.",
  ["inputs", "programs"],
  "all pairs/triples of records (nested records, lists, dicts, primary keys, extraneous attributes, set/unset slots) of generated types",
  "Tests compare a few fixed star-trek records; the laws quantify over all pairs and over all declarations, including empty collections and unset slots.",
  ["normalize/record/__init__.py", "normalize/identity.py", "normalize/coll.py"],
  [("Record.__eq__/__hash__/__repr__", "normalize/record/__init__.py"), ("record_id", "normalize/identity.py")])

p("C06", "Pickling and copying preserve records and collections",
  "For every record or collection, unpickling a pickle of it (any protocol) or deep-copying it yields an object of the same type that compares equal, has the same slots set (extraneous ones included) and the same collection items, and shares no mutable state with the original. "
  "The copy is fully functional: type checks, read-only and lazy attributes and collection operations behave on it as on the original, and unset lazy attributes are not forced by copying.",
  ["inputs", "programs", "histories"],
  "all records and typed collections (nested, with extra properties, JSON variants) after any history, all pickle protocols",
  "Tests pickle three fixed objects; fidelity over nesting, extra collection properties, lazy state and protocols is not sampled.",
  ["normalize/record/__init__.py", "normalize/coll.py", "normalize/record/json.py", "normalize/selector.py"],
  [("__getnewargs__/__getstate__/__setstate__", "normalize/record/__init__.py"), ("generic collection reduce", "normalize/coll.py")])

p("C07", "Typed lists behave like Python lists whose items are always of the item type",
  "Under any sequence of list operations (append, extend, insert, pop, remove, reverse, sort, index, count, item and slice get/set/delete, iteration, membership, length, concatenation) a typed list has the same contents, results and error kinds as a plain list subjected to the same operations with the items added or tested for membership coerced to the item type first. "
  "Every item is of the item type at all times; an operation given an item that cannot be coerced raises a coercion error (a TypeError) and leaves the list unchanged.",
  ["histories", "inputs"],
  "all operation sequences with in- and out-of-range indexes, negative indexes, slices, coercible and uncoercible items, over simple and record item types",
  "Tests run a single fixed sequence; agreement with list over arbitrary sequences and index boundaries needs a model.",
  ["normalize/coll.py"],
  [("ListCollection", "normalize/coll.py"), ("coerce_value", "normalize/coll.py")],
  [dict(name="items", meaning="underlying list", where="normalize/coll.py Collection._values")])

p("C08", "Typed dicts behave like Python dicts whose values are always of the item type",
  "Under any sequence of dict operations (item get/set/delete, update from mappings, pairs or keywords, pop, popitem, clear, keys/values/items, membership by key, length, construction) a typed dict has the same contents, results and error kinds as a plain dict subjected to the same operations with values coerced to the item type first. "
  "(A list of bare values, or an iterator over values other than pairs, is taken with the indexes as keys.) "
  "Every value is of the item type at all times; an operation on a single key given a value that cannot be coerced raises a coercion error (a TypeError) and leaves the dict unchanged.",
  ["histories", "inputs"],
  "all operation sequences over all keys and coercible/uncoercible values, over simple and record item types",
  "The class is described in its own documentation as largely untested; the tests touch a few methods once.",
  ["normalize/coll.py"],
  [("DictCollection", "normalize/coll.py")])

p("C09", "JSON round trip: marshalling out and back in reproduces the record",
  "For every record whose JSON mappings are invertible, marshalling it out, through actual JSON text, and back in through its type gives a record equal to the original with the same attributes set; marshalling that result out again gives the same JSON. "
  "This covers nested records, typed lists and dicts (JSON-aware or plain types), renamed keys, custom conversion functions, integers of any size, text, dates, and unknown keys of JSON-aware records when extraneous data is included.",
  ["inputs", "programs"],
  "all record types built from JSON-aware and plain records, lists, dicts and typed scalars with key renaming and custom conversions, all values of them",
  "Tests marshal a few fixed documents; losslessness quantifies over all declarations and values, including boundary integers and deep nesting.",
  ["normalize/record/json.py", "normalize/property/json.py", "normalize/property/types.py"],
  [("to_json/from_json", "normalize/record/json.py"), ("JsonProperty", "normalize/property/json.py")])

p("C10", "JSON output has exactly the declared keys and only JSON-representable data",
  "Marshalling a record out yields an object that any JSON encoder accepts, with exactly one entry per set attribute under its JSON name, no entry for unset attributes or attributes whose JSON name is None, and extraneous attributes and unknown keys only when extraneous output is requested. "
  "Unknown keys of a JSON-aware record are kept unmodified and merged back without overriding known attributes. "
  "Marshalling out changes nothing in the record, and changing the output afterwards does not change the record.",
  ["inputs", "programs", "configurations"],
  "all record types (JSON names, None names, extraneous flags, custom output functions, nested lists/dicts) and values, with and without extraneous output",
  "Tests compare a handful of outputs; presence/absence of each key over all flag combinations and non-aliasing are not sampled.",
  ["normalize/record/json.py", "normalize/property/json.py"],
  [("to_json", "normalize/record/json.py"), ("JsonRecord.json_data", "normalize/record/json.py")])

p("C11", "JSON input: all input forms are equivalent, faults are reported at their path",
  "Marshalling in from loaded data, from JSON text, from UTF-8 bytes and from a bytearray of the same document gives equal records and never modifies the document; nested records, typed collections and unknown keys share nothing with it. "
  "If a document has one value that cannot be converted, at any depth, marshalling in raises a conversion error (a TypeError; a ValueError for a failed check or missing required value of the top record) and never makes a record. "
  "Where the value is a nested document of the wrong kind, an item of a plain typed collection, or rejected by a custom conversion function, the error reports exactly its path from the top of the document and carries the original error; where it is a scalar rejected by an attribute's declared type, the path is that of the value or of the record or list holding it. "
  "Malformed text and undecodable bytes are rejected with an exception.",
  ["inputs", "fault_sequences", "programs"],
  "all documents for generated types (records, lists and dicts nested to any depth, renamed keys), each with one injected fault at any position, in all input forms",
  "Tests inject three faults at fixed places (and the assertions that read the path do not run on this Python); the path must be right for every position and nesting.",
  ["normalize/record/json.py"],
  [("ingress error boxing", "normalize/record/json.py _box_ingress_error"), ("text/bytes decoding", "normalize/record/json.py _decode_and_parse_json")])

p("C12", "Field selectors read, write, create and delete exactly the location they name",
  "Following a field selector path through records, typed or plain lists and dicts returns the value at that location; after a successful put or post the same path reads back the (coerced) value and every location that does not lie under it is unchanged; after a delete the location is gone and all others are unchanged. "
  "Post creates missing intermediate records and collections and appends at the end of a list (an index beyond that end is refused with a ValueError, and nothing appended); a wildcard applies the rest of the path to every item of the collection, reading None for items that lack it, and deleting it from all items that have it, as long as one item does. "
  "A path which does not resolve because an attribute, index or key on it is missing raises the field selector exception on get, and on put and delete through it (never another kind of error); get_or_none gives None instead. "
  "Reading never changes the data, and neither does a put or delete along a path without wildcards that fails.",
  ["inputs", "histories"],
  "all trees of records/lists/dicts, all paths (attribute, index, negative index, key, wildcard, unresolvable) and all operations on them",
  "Tests use one small tree with a dozen paths; the lens laws (put-get, frame) quantify over all trees and paths.",
  ["normalize/selector.py", "normalize/coll.py"],
  [("FieldSelector.get/put/post/delete", "normalize/selector.py")])

p("C13", "Selector text paths and reprs are lossless; comparison is consistent",
  "For every selector, parsing its text path gives back an equal selector, as does evaluating its repr, pickling or copying it; the same holds for multi-selectors up to the set of paths they contain. "
  "Equality, hashing, ordering, concatenation, indexing, slicing and prefix tests agree with those of the list of path elements: sorting selectors puts indexes in increasing order, equal selectors have equal hashes, and a prefix test with anything that is not a prefix (longer ones included) is False. "
  "Elements which are not strings, integers or None are rejected.",
  ["inputs"],
  "all element sequences of strings (any characters, empty, quotes, brackets, backslashes, newlines), integers (any sign) and None; all sets of those",
  "Tests parse a few friendly paths; quoting and escaping must work for every string.",
  ["normalize/selector.py"],
  [("path formatting and scanning", "normalize/selector.py"), ("FieldSelector comparison methods", "normalize/selector.py")])

p("C14", "Multi-selectors project, match, delete and patch exactly their paths",
  "Applying a multi-selector to a tree yields a copy containing exactly the set (not None) attributes and the dict and list items at or under one of its paths (each selected value equal to the original's, nothing else, selected list items in order without gaps, sharing nothing mutable), and leaves the original unchanged. "
  "Membership of a path tells whether that path lies under a selected path, and subscripting by a path gives the multi-selector of what remains (nothing if disjoint, everything if fully selected), consistently for single elements and longer paths. "
  "Delete removes exactly the selected locations, or raises without any change if one is missing and force is not given (as in reading, a wildcard only fails if all items lack the rest). "
  "Patch makes every selected location of the target equal to the source's, deleting attributes the source does not have set, and changes nothing else; the source never changes.",
  ["inputs", "histories"],
  "all trees and all sets of paths resolvable or not in them",
  "Tests use a few hand-written selector sets over one tree.",
  ["normalize/selector.py"],
  [("MultiFieldSelector.get/__contains__/__getitem__/delete/patch", "normalize/selector.py")])

p("C15", "Diff reports a difference exactly when there is one, at locations that resolve",
  "Comparing a value with a copy of itself reports nothing under any options; with whitespace/unicode normalisation disabled, comparing two records of the same type reports nothing when every non-extraneous attribute is unset in both or equal in both, and only when they are equal up to reordering of items inside collections. "
  "Every reported difference names locations that resolve: a modified one resolves in both objects and to different values, an added one in the other and a removed one in the base object; the opposite side is the same attribute, which is not set there, or, for items, the enclosing collection. Records of different derived types of an attribute's or a collection's item type are different, never an error. "
  "Unless items are matched by similarity, swapping the two objects swaps added with removed and the two locations and reports the same set otherwise. Neither object is changed by the comparison, and the unchanged option adds reports of unchanged locations only.",
  ["inputs", "programs"],
  "all pairs of records of generated types (nested records, lists, dicts, with and without primary keys), including pairs obtained by edits of each other",
  "Tests diff a few fixed pairs; soundness and completeness range over all pairs and edit positions.",
  ["normalize/diff.py", "normalize/identity.py"],
  [("compare_record_iter", "normalize/diff.py"), ("compare_collection_iter", "normalize/diff.py"), ("_fuzzy_match", "normalize/diff.py")])

p("C16", "Collection diffs account for every item exactly once",
  "When two collections are compared, every item of either side is accounted for exactly once: as unchanged, moved, modified or removed for the base items and as unchanged, moved, modified or added for the other's, with items matched one to one. "
  "Simple lists and dicts are compared as multisets of normalised values, an index or key whose value is unmatched on both sides being reported once as modified; equal values are matched in their order of occurrence. Record items with a primary key are matched by that key: items with equal keys always with each other, so that editing, adding, removing and reordering them yields precisely the corresponding modified, added, removed and moved reports; similarity matching, where enabled, pairs only items that were not matched exactly and have some compared value in common, each at most once and the most similar first.",
  ["inputs", "programs", "configurations"],
  "all pairs of lists/dicts of simple values and of keyed or unkeyed records, with duplicates, with the unchanged, moved, fuzzy matching and recursive options in any combination",
  "Tests check counts on a few pairs; one-to-one accounting with duplicates and reordering over all option combinations is not sampled.",
  ["normalize/diff.py", "normalize/identity.py"],
  [("compare_list_iter/compare_dict_iter/compare_collection_iter", "normalize/diff.py"), ("record_id", "normalize/identity.py")])

p("C17", "Each diff option hides exactly the differences it names",
  "Two records that differ only in whitespace, in letter case, in unicode normal form, in empty versus unset text, in extraneous attributes, in what a comparison clean-up function discards, or outside the comparison filter, are reported as different exactly when the corresponding option says those differences count; any other difference is reported under every setting of these options. "
  "A filtered comparison reports exactly those differences of the unfiltered one that lie under the filter, for attribute paths; where a filter path goes through a collection (to all items, or to one by its index or key), only what it names is compared, of all items or of that one item alone, and items are matched by what it names of them. With duck typing an object of another class with the same attribute values compares as identical, and without it is refused. A clean-up function given to an attribute replaces its value for the comparison, also where items are matched, and is not called for attributes which are not set.",
  ["inputs", "configurations"],
  "all pairs and all combinations of diff options and attribute filters",
  "Tests try each option on one pair; interactions between options and between options and nesting are not sampled.",
  ["normalize/diff.py", "normalize/identity.py"],
  [("DiffOptions", "normalize/diff.py")])

p("C18", "Visiting maps every selected slot once, and casting reverses it",
  "A default visit of a record gives plain dicts and lists holding exactly its set, non-None, non-extraneous (unless requested) attributes and items; casting that result to the type gives back a record equal to the original, if no attribute or item was None and no untyped attribute or union of several record types holds records; the same holds when the hooks of visit and cast encode and decode each value. "
  "The per-value hook is called exactly once for each selected leaf value (and, on request, for each attribute that is not set, with the exception), with the value, its property and a field selector which, applied to the visited object, leads to that value; a visit filter restricts this to exactly the leaves under the filter. "
  "Reflecting on a type lists every non-extraneous property with its name and type, recursively, and visiting never changes the visited object.",
  ["inputs", "programs", "configurations"],
  "all record trees of generated types, all visit filters and option settings",
  "Tests visit one small object graph; completeness of the traversal quantifies over all shapes and filters.",
  ["normalize/visitor.py"],
  [("VisitorPattern.map/map_record/map_collection/map_prop", "normalize/visitor.py")])

p("C19", "A property declaration gets every behaviour its arguments ask for",
  "Any legal combination of declaration arguments (type, check, required, default, lazy, read-only trait, JSON options, comparison function, list or dict item type, v1 none value, pre-made typed property classes) yields a property that has all the corresponding behaviours at once, whatever other combinations were declared earlier in the process and in whatever order. "
  "Declaring the same combination twice gives properties of the same class; unknown arguments, positional arguments and contradictory combinations are rejected at declaration time with a definition error.",
  ["programs", "histories", "configurations"],
  "all subsets of declaration arguments over all stock and typed property classes, all declaration orders",
  "The class of each property is composed at run time and cached process-wide; tests declare a few combinations in one order.",
  ["normalize/property/meta.py", "normalize/property/__init__.py", "normalize/property/coll.py", "normalize/property/json.py", "normalize/property/types.py"],
  [("trait composition", "normalize/property/meta.py create_property_type_from_traits"), ("argument-driven class selection", "normalize/property/meta.py has")],
  [dict(name="composed property classes", meaning="process-wide cache by trait set", where="normalize/property/meta.py PROPERTY_TYPES")])

p("C20", "Subtypes and ready-made typed properties accept exactly their value sets",
  "A value is an instance of a subtype exactly when it is an instance of the base type and satisfies the condition (a condition that raises counts as not satisfied), at every level of nested subtypes; calling a subtype returns conforming values as they are, otherwise the coerced value if that conforms, and raises a coercion error in every other case. "
  "The ready-made properties for integers, numbers, floats, strings, dates and datetimes always hold a value of that type: dates never hold datetimes, dates and datetimes written as ISO text (to the minute or second) read back as the same instant, text of a number gives exactly that number, other values are converted as python's own constructor of the type does, and values that cannot be converted (an ISO text of no existing day or time, or with anything else before or after it, included) raise a coercion error and leave the attribute as it was.",
  ["inputs", "programs"],
  "all predicates, base types, nesting of subtypes and input values; all dates, datetimes and numbers and their textual forms",
  "Tests use one or two subtypes and a few date strings; acceptance must be exact for every value.",
  ["normalize/subtype.py", "normalize/property/types.py"],
  [("subtype instance check and constructor", "normalize/subtype.py"), ("coerce_date/coerce_datetime/coerce_number", "normalize/property/types.py")])

p("C21", "Unset attributes are safely navigable: v1 none values, empty pseudo-attributes",
  "An unset v1 attribute (or one declared with a false immutable default) reads as its none value instead of raising; assigning None or that none value where the type does not accept it unsets the attribute whether or not it was set, any other illegal value raises and changes nothing, and required attributes are never unset. "
  "The empty pseudo-attribute (name followed by 0) of any property returns the attribute's value when it is set and otherwise a false placeholder that can be navigated along every attribute or item path the declared types allow, always yielding false placeholders, never stores anything, and raises for attributes, items or calls that no declared type supports.",
  ["inputs", "histories", "programs"],
  "all declarations with v1 none values and false defaults; all navigation paths over declared types from set and unset attributes; all assign/delete histories",
  "Tests navigate two paths and set one v1 attribute.",
  ["normalize/property/__init__.py", "normalize/empty.py"],
  [("V1Property", "normalize/property/__init__.py"), ("EmptyVal placeholder", "normalize/empty.py")])

p("C22", "Auto JSON records expose the whole input document by attribute, losslessly",
  "For any JSON document, an auto record built from it gives access to every key as an attribute (camelCase keys in their python form, or unconverted in the non-converting variant; names the class itself defines excepted), recursively through nested objects and through lists, with scalar values unchanged. "
  "Marshalling it out reproduces the input document for keys whose conversion is invertible (whole numbers beyond 2**50 as text, as everywhere); declared properties keep their types and take precedence; names not in the document raise AttributeError; assigning or deleting such attributes is reflected in later reads and in the output.",
  ["inputs", "histories"],
  "all JSON documents (nested objects, lists of objects, mixed lists) with keys in snake_case/camelCase; all read/assign/delete sequences",
  "Tests load two fixed documents and read some attributes; assignment and deletion are never tested.",
  ["normalize/record/json.py"],
  [("AutoJsonRecord", "normalize/record/json.py")])

p("C23", "Comparison hooks replace what is compared; results are complete plain data",
  "Overriding a documented hook of the comparison options (text, whitespace, case, normal form, value, slot, object slot, item, emptiness, equality, identity, filter), or giving a collection type an item clean-up function, makes the comparison report exactly what it would report if the values were replaced by what the hook returns, for attributes as well as where items are matched; item hooks are told the collection and the index or key of the item. "
  "The eager, lazy and method forms of a comparison, with options given as an object or as keywords, report the same (both at once is an error), also below a given prefix; every report can be made again from its parts with its type given as member, number or name, equals it exactly when all parts are equal, and its text names its type and its location, that of a whole result the types compared and every location.",
  ["inputs", "programs"],
  "all combinations of overridden hooks and options over all pairs of records and collections; all comparison results",
  "One test overrides one hook; every hook must act on every kind of value at every place where values are compared or matched.",
  ["normalize/diff.py", "normalize/identity.py"],
  [("DiffOptions sub-class API", "normalize/diff.py DiffOptions"), ("DiffInfo, Diff", "normalize/diff.py"), ("record_id", "normalize/identity.py")])

p("C24", "Every rejection is an error of the documented class that tells what is wrong",
  "A value, declaration, definition, path or use that is rejected raises an error which derives from NormalizeError, from the class of normalize.exc for that kind of mistake and from the built-in error one expects (TypeError for coercions and wrong kinds of values, ValueError for checks and missing attributes, AttributeError for read-only attributes and unknown names in paths, KeyError for missing indexes and keys). "
  "Its fields give the offending value itself, the property, type, name or index concerned and the error of the user's function that caused it; its text and repr never fail, whatever the value and names are, and mention these; an error raised by a check function passes unchanged. "
  "An error class made from a message template formats it with its arguments, gives them by name and position, has a repr that makes it again, and says which argument is missing.",
  ["inputs", "programs", "fault_sequences"],
  "every kind of mistake the library rejects, with any value, name and user error; every template and arguments of user-made error classes",
  "Tests provoke each error once, mostly with one harmless value and without looking at its fields or text.",
  ["normalize/exc.py", "normalize/property/__init__.py", "normalize/coll.py", "normalize/record/json.py", "normalize/selector.py", "normalize/visitor.py", "normalize/subtype.py"],
  [("StringFormatException and its subclasses", "normalize/exc.py"), ("Property.type_safe_value", "normalize/property/__init__.py"), ("Collection.coerce_value", "normalize/coll.py")])

p("C25", "Record and collection types are what their definition says",
  "A record type has every attribute of its bases and its own, own ones in place of inherited ones, each being the very declaration given to the class (with its name and owner), whatever other types were defined before or after and whatever the names are; its required and eagerly defaulted attributes, primary key (never inherited; given by names or declarations of its own attributes), methods, constants and mix-in classes are those written down, and its instances and subclasses behave accordingly. Ambiguous bases, reserved names and primary keys of unknown attributes are rejected with a definition error. "
  "Asking for a collection of the same item type again, by any of the documented ways, gives the same usable type, other types of that name and contradictory declarations are refused, and declared collection types and their subclasses keep their item type and attributes.",
  ["programs", "configurations", "inputs"],
  "all sequences of definitions of record types over shared bases, mix-ins, overriding declarations and primary keys; all sequences of requests for and definitions of collection types",
  "Tests define a handful of types, mostly with one base; what a definition yields must not depend on the others made in the process.",
  ["normalize/record/meta.py", "normalize/coll.py", "normalize/property/coll.py", "normalize/record/__init__.py"],
  [("RecordMeta.__new__", "normalize/record/meta.py"), ("_make_generic", "normalize/coll.py"), ("ListProperty/DictProperty", "normalize/property/coll.py")],
  [dict(name="generic collection types", meaning="process-wide cache by names", where="normalize/coll.py GENERIC_TYPES")])

p("C26", "JSON conversion hooks are used, once each, wherever they apply",
  "Marshalling in calls the input function of an attribute exactly once for its key when that is in the document, and never when the value is given by keyword; it makes nested values by the from_json method of their type and by the json_to_initkwargs method of JSON-aware types, each called once with its piece of the document, in records, typed lists and dicts at any depth, and several attributes may read the same key. "
  "Marshalling out calls the output function of an attribute once with its value, and otherwise the json_data method of a nested value once, asking for extraneous data exactly if its own output was asked for and the method takes that argument; what these return is used unchanged, and unset lazy attributes are computed. "
  "An error raised by a hook is never swallowed: on output it passes unchanged and the record can be marshalled again, on input it is reported as it is or as the cause of a conversion error at the path of the value concerned, and the document is unchanged.",
  ["inputs", "programs", "fault_sequences"],
  "all families of types overriding the documented hooks in any combination and nesting; all values, documents and hook errors",
  "Tests override each hook once at the top or one level deep; whether hooks run, how often and with what depends on where in the structure the value sits.",
  ["normalize/record/json.py", "normalize/property/json.py"],
  [("json_to_initkwargs, from_json", "normalize/record/json.py"), ("to_json, _json_data", "normalize/record/json.py"), ("JsonProperty", "normalize/property/json.py")],
  [dict(name="json_data signature caches", meaning="process-wide, by type", where="normalize/record/json.py has_json_data")])

p("C27", "Collections with attributes of their own are records and containers at once",
  "A list or dict collection type (JSON-aware or not, directly or by inheritance) may declare attributes. Every operation on the items leaves all attributes as they are, every assignment, deletion or read of an attribute leaves the items as they are, and both follow the rules they follow alone: attributes those of records (types, checks, defaults - whose functions see the items -, required, read-only, lazy), items those of the collection. "
  "Construction takes the items (positionally or as `values`) with attributes by keyword; conversion from another collection, concatenation and JSON input take items only, and JSON output is the items alone unless the type's own json_to_initkwargs and json_data methods say otherwise. Equality compares items only; repr, pickling and copies keep both. "
  "Comparison reports attributes as of a record, at their names, and items as of a collection without attributes; a visit gives attributes with the items under 'values', and casting reverses it; field selectors name attributes of list collections, and multi-field selections of the whole keep attributes.",
  ["inputs", "histories", "programs"],
  "all collection types with own attributes, all histories of item and attribute operations, constructions, conversions and copies; all pairs of such collections",
  "No test gives a collection an attribute and then uses it as a container beyond one fixed case.",
  ["normalize/coll.py", "normalize/record/json.py", "normalize/record/__init__.py", "normalize/diff.py", "normalize/selector.py", "normalize/visitor.py"],
  [("Collection.__init__, coll_to_tuples", "normalize/coll.py"), ("JsonRecordList", "normalize/record/json.py"), ("compare_collection_iter", "normalize/diff.py"), ("FieldSelector._try_index", "normalize/selector.py")])

p("C28", "Threads with objects of their own do not disturb each other",
  "Threads which work on objects of their own, or only read shared ones whose lazy attributes are computed, get what they get when they run one after another, wherever in the library any of them is interrupted and another one runs: making, changing, loading, marshalling, comparing, hashing, printing, visiting, selecting, copying and pickling records and collections, errors included with their texts and paths. "
  "This includes everything done for the first time in the process: instances of types nothing has been done with yet, new record and collection types, combinations of property traits nobody asked for before, and functions of the user (defaults, coerce, check and JSON functions) being interrupted. "
  "list_of() and dict_of() of a type, and declarations of typed collections, give all threads the same type, which can be used, pickled and unpickled afterwards.",
  ["schedules", "programs"],
  "all schedules of threads with objects of their own, at the granularity of source lines; all programs of library operations; all families of types",
  "The tests use a single thread; what an interruption between two steps of a process-wide cache does needs that interruption.",
  ["normalize/record/json.py", "normalize/coll.py", "normalize/property/meta.py", "normalize/property/__init__.py", "normalize/empty.py", "normalize/visitor.py", "normalize/identity.py"],
  [("_json_data type caches", "normalize/record/json.py"), ("_make_generic", "normalize/coll.py"), ("has, create_property_type_from_traits", "normalize/property/meta.py"), ("LazyProperty.__get__", "normalize/property/__init__.py")],
  [dict(name="process-wide type caches", meaning="json_data signatures, generic collection types, composed property types", where="normalize/record/json.py, normalize/coll.py GENERIC_TYPES, normalize/property/meta.py PROPERTY_TYPES")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
