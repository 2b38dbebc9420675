A = "Random search with shrinking; no guarantee beyond the cases generated. Trusts the reference model in the check. "
NOTE.update({
"C01": ("random declarations and operation histories against a model of the slots", A),
"C02": ("random declarations and values; call counts and error classes against a reference pipeline", A),
"C03": ("random histories on read-only/lazy/defaulted attributes against a model with counting default functions", A),
"C04": ("random record types with inheritance, keyword/mapping construction compared with each other and a model", A),
"C05": ("pairs and triples of generated records; algebraic laws of equality, hash and repr round trip", A),
"C06": ("generated records and collections with histories; copies compared slot by slot, aliasing and behaviour probes", A),
"C07": ("model-based histories of list operations, a plain list of coerced items as the reference", A),
"C08": ("model-based histories of dict operations, a plain dict of coerced values as the reference", A),
"C09": ("generated record types and values; JSON round trip through text", A),
"C10": ("generated record types and values; JSON output against a reference marshaller, aliasing probes", A),
"C11": ("generated documents with one injected fault, in all input forms; expected path from the injection", A),
"C12": ("generated trees and operation histories against a model of the whole tree", A),
"C13": ("generated selectors; round trips and agreement with lists of path elements", A),
"C14": ("generated trees and path sets against a model on nested literals", A),
"C15": ("pairs of generated records under random options; reports against a model of the comparison, swap and copy relations", A),
"C16": ("pairs of generated collections derived by edits and moves; exact model of the reports, one-to-one accounting", A),
"C17": ("pairs of generated records differing in what options name, under random options and filters; exact model of the comparison, filter and duck typing relations", A),
"C18": ("generated trees visited with recording, encoding and stopping hooks under random options and filters; model on literals, cast round trip", A),
"C19": ("random sequences of declarations, each history in a fresh process; every behaviour of every property probed against a model", A),
"C20": ("generated chains of conditions, values and texts against a reference of the value sets", A),
"C21": ("random declarations and histories for v1 attributes; generated record types and navigation paths against a model of declared types", A),
"C22": ("generated JSON documents and attribute histories on auto records against a model on literals", A),
"C23": ("pairs of generated records and collections compared under random subclasses of the options class; exact model with the same hooks, forms of results against each other", A),
"C24": ("generated mistakes of every kind with generated values, names and user errors; class, fields and text of the error checked, templates against an own formatter", A),
"C25": ("generated sequences of class definitions and requests for collection types, some illegal; structure and instances of every type against a model, again after all definitions", A),
"C26": ("generated families of types overriding the JSON hooks; documents, values and hook calls against a model, injected hook errors", A),
"C27": ("histories of item, attribute, copy, conversion, JSON, visit and selector operations on generated collection types with attributes, against a model of items and attributes side by side; comparisons against those of the items alone", A),
"C28": ("two or three threads running generated programs, one at a time, handing over at generated library lines (or at every line in turn), on types new to the library; results against the same programs run alone", A + "Interruptions at line granularity only. "),
})
