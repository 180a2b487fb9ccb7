#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for what is claimed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DE, DS = "yaserde_derive/src/de/expand_struct.rs", "yaserde_derive/src/ser/expand_struct.rs"
DEE, DSE = "yaserde_derive/src/de/expand_enum.rs", "yaserde_derive/src/ser/expand_enum.rs"
RD, WR, LIB = "yaserde/src/de/mod.rs", "yaserde/src/ser/mod.rs", "yaserde/src/lib.rs"
PRIM, PRIMD = "yaserde/src/primitives.rs", "yaserde_derive/src/primitives.rs"
FIELD, ATTR = "yaserde_derive/src/common/field.rs", "yaserde_derive/src/common/attribute.rs"
EL, IMPL, NSP = "yaserde_derive/src/ser/element.rs", "yaserde_derive/src/ser/implement_serializer.rs", "yaserde_derive/src/ser/namespace.rs"
LABEL, BDV = "yaserde_derive/src/ser/label.rs", "yaserde_derive/src/de/build_default_value.rs"
HOOK = "cfg(yaserde_verif): step counters and a step budget in the reader (yaserde/src/verif.rs)"
P = []


def prop(id, title, statement, over, qtext, why, mech, observe, technique, note, level="exploration", state=None, hook=HOOK):
    files = sorted({w.split(" ")[0].split(":")[0] for _, w in mech})
    P.append(dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook, **({"state": state} if state else {}))),
        technique=technique, level=level, note=note))


IO = ["yaserde::de::from_str / from_reader", "yaserde::ser::to_string*"]

prop("C01", "What is serialized can be deserialized to the same value",
     "For every type deriving both traits and every value of it whose strings XML can hold and whose skipped fields hold their defaults, deserializing the serialized document gives an equal value. This holds with every serializer configuration that does not add white space inside of text, and whatever the names, nesting, options, lists, enums, attributes and text the value has.",
     ["inputs", "programs", "configurations"], "all derived types built from the documented annotations, all their values, all serializer settings",
     "The tests round-trip one or two hand-picked values per feature; values with empty strings, names shared between a type and its fields, features combined, and unusual strings are not reached.",
     [("generated deserializer", DE + " parse"), ("generated serializer", DS + " serialize"), ("enum deserializer", DEE + " parse"), ("enum serializer", DSE), ("text of scalars", LIB + " serialize_type")],
     IO, "runtime monitor: round trip of generated values over generated programs", "Holds on the values and types run (a fixed matrix of every feature and 100 to 400 random type trees per seed); values outside of what XML can hold are judged as far as it can.")

prop("C02", "Serialized documents say exactly what the annotations declare",
     "The document written for a value has the elements, attributes, expanded names, order and text its type's declarations and annotations ask for, and nothing else: field order is document order, attributes are on the element of their struct, lists are repeated elements, absent options leave nothing. An independent XML reader must see this tree.",
     ["inputs", "programs", "configurations"], "all derived types, all values, all serializer settings",
     "Tests compare a few documents literally; a misplaced attribute or a lost field in an untested combination is not seen.",
     [("struct serializer", DS + " serialize"), ("enum serializer", DSE), ("element builder", EL), ("start element and namespaces", IMPL), ("labels", LABEL), ("renaming", FIELD + " renamed_label")],
     ["text returned by to_string*", "bytes given to the writer"], "runtime monitor: strict XML reader and reference model judge every document written", "The reference model (harness/src/refm.rs) states the annotations independently; it is trusted.")

prop("C03", "No value can make the output ill-formed or add markup to it",
     "Whatever strings a value holds, successful serialization gives a well-formed, namespace-well-formed document (for characters XML can hold), and strings never add, remove or change elements, attributes or their boundaries: the structure is the one the same value with harmless strings has.",
     ["inputs", "programs", "configurations"], "all strings in every position (elements, attributes, text, CDATA, lists, enum contents), all settings",
     "Tests hold a handful of escaped strings; CDATA terminators, quotes, markup look-alikes in each kind of field are not enumerated.",
     [("CDATA writer", EL + " cdata"), ("attribute writer", DS + " attributes"), ("text writer", DS + " text"), ("scalars", LIB + " serialize_type")],
     ["text returned by to_string*"], "runtime monitor: injection oracle (hostile against harmless strings) with a strict reader", "The escaping of text and attributes is xml-rs's; characters that XML cannot hold are not judged here.")

prop("C04", "Equivalent XML presentations deserialize to the same value",
     "Documents with the same information read the same: prefix choice and default namespaces, attribute order and quoting, character references, CDATA, comments, processing instructions between elements, insignificant white space, empty-element tags, declarations, byte order marks and encodings make no difference to the value or to whether it is accepted.",
     ["inputs", "programs"], "all documents of all derived types, all their presentations",
     "Tests use one presentation of each document, written by hand.",
     [("parser settings", RD + " new_from_reader"), ("events that are passed over", RD + " inner_next"), ("matching by namespace", DE + " build_call_visitor"), ("namespace matching", ATTR + " get_namespace_matching")],
     IO, "runtime monitor: many presentations of one document against a reference model", "Two findings about processing instructions inside of text are recorded in known_findings.txt.")

prop("C05", "Unknown attributes and elements are ignored with all they contain",
     "Attributes and elements that a type does not declare make no difference wherever they stand, whatever their content is, even if it holds the very names, values or copies of declared fields. Fields are only read from their own element.",
     ["inputs", "programs"], "all documents with any unknown content at any place",
     "Few tests hold an unknown element, none holds known names inside of unknown ones, at depth, or inside of scalars.",
     [("unknown elements are skipped", DE + " loop over events"), ("skip_element", RD + " skip_element"), ("unknown variants", DEE + " loop over events"), ("text is taken at its own level", DE + " set_text")],
     IO, "runtime monitor: metamorphic injection of unknown content, judged by a reference model", "Nothing is injected inside of scalar elements (but attributes) or within one run of text.")

prop("C06", "Scalars are read and written exactly",
     "In every position (element, attribute, option, list, enum content), booleans, integers and floats are written in their plain form and read back to the very same value, at every bound of their types. A text that is not in the type's lexical space or out of its range is never turned into some value: it is an error, or the absence of the field, as the position calls for. The same holds for Rust's scalars (char and machine words too) written by themselves, and a visitor refuses what it does not implement.",
     ["inputs"], "all values of all scalar types and all texts, in all positions",
     "Tests hold one or two numbers per type; bounds, signs, spaces, overflow and the difference between positions are not covered.",
     [("scalar visitors", DE + " build_visitor"), ("attributes", DE + " attributes_loading"), ("enum contents", DEE + " parse_variant"), ("scalar texts", LIB + " serialize_type")],
     IO, "runtime monitor: exhaustive short texts and small types, random others, against a reference scanner", "Floats: Rust's own parser and formatter are the reference, compared bit for bit.")

prop("C07", "Missing fields: errors for required ones, None, empty and defaults otherwise",
     "Deserialization succeeds if and only if every required field at every level has a readable value; then absent fields with a default have that default, flattened ones and lists included, and other absent optional fields are None, absent lists empty. A field of one element is never filled from another element.",
     ["inputs", "programs"], "all documents with any combination of fields missing or unreadable at any depth",
     "Tests remove a field in a few structs; combinations of missing, defaulted and unreadable fields at depth are not reached.",
     [("struct builder", DE + " struct_builder"), ("default values", BDV), ("default functions", FIELD + " get_default_function")],
     IO, "runtime monitor: fields removed or spoilt at random, judged by a reference model", "Unreadable scalar elements count as absent, unreadable attributes as errors, as the code has it.")

prop("C08", "skip_serializing, skip_serializing_if and default omit exactly what they say",
     "A field is left out of the document exactly if it is marked skip_serializing, its skip_serializing_if predicate holds for its value, or its value equals its declared default; this holds for attributes, elements, text, CDATA, lists, options and flattened structs alike. Leaving a field out changes nothing else, and reading restores defaults.",
     ["inputs", "programs"], "all values and all kinds of fields with these annotations",
     "Tests cover string and struct elements with one predicate; attributes, text, lists, flattened fields and near-default values are not covered.",
     [("conditions around fields", EL + " condition"), ("attributes", FIELD + " ser_wrap_default_attribute"), ("struct serializer", DS + " serialize"), ("struct builder", DE + " struct_builder")],
     IO, "runtime monitor: values at, near and off the named ones against a reference model and a strict reader", "Predicates of the types run compare with constants or are constant.")

prop("C09", "Flattened fields behave as if written out in place",
     "A struct with flattened fields reads and writes exactly the documents of the same struct with the flattened structs' fields written out in its place, at any nesting of flattening, with attributes, lists, options, namespaces and unknown content around. Optional flattened fields and flattened enums read and write the content that belongs to them, and so do types that are flattened as a whole, whose documents are fragments without a root.",
     ["inputs", "programs"], "all types with flattened fields, all values and documents",
     "Tests flatten one or two structs with simple fields; name clashes, nested lists, attributes, missing parts and unknown elements are not covered.",
     [("unused events", DE + " build_code_for_unused_xml_events"), ("reading flattened fields", RD + " from_flattened"), ("writing flattened fields", DS + " flatten"), ("flattened enums", DEE + " flatten")],
     IO, "runtime monitor: differential execution of flattened types and their written-out pairs", "The pair is a derived type as well; both run the code under observation, the model judges one of them.")

prop("C10", "Names match by namespace URI, never by prefix, in both directions",
     "Elements and attributes with a declared namespace are written with an expanded name of that namespace, declared where it is used, and are read from whatever prefix the document binds to it; the same local name in another namespace is another name. A root element of a wrong namespace is an error.",
     ["inputs", "programs"], "all types with namespaces, all prefix bindings and all moves of names between namespaces",
     "Tests use the declared prefixes and a few wrong namespaces; rebound and shadowed prefixes, equal local names and foreign attributes are not covered.",
     [("namespace matching", ATTR + " get_namespace_matching"), ("field matching", DE + " build_call_visitor"), ("attribute matching", RD + " matching_attributes"), ("declarations", NSP), ("prefixes of labels", LABEL)],
     IO, "runtime monitor: names moved between namespaces and rebound prefixes against a reference model", "Enum variants match by local name, and an attribute of a foreign namespace is a fallback if none of the field's namespace is there (taken as specified).")

prop("C11", "Enums carry their variant and its content, and only that",
     "A unit variant, a variant with a scalar, struct, list or optional content, a tagged and a flattened enum are written such that reading gives the same variant and content, in every position including attributes and lists. Reading an enum uses exactly its own element: names it shares with fields, its own type or siblings do not confuse it, and what follows is read normally.",
     ["inputs", "programs"], "all enum types in all positions, all values, documents with variants renamed, removed, repeated or surrounded by unknown elements",
     "Tests read a few enums in ordinary positions.",
     [("enum deserializer", DEE + " parse"), ("variants", DEE + " parse_variant"), ("enum serializer", DSE), ("attributes", DE + " visit_struct")],
     IO, "runtime monitor: generated enum trees and documents against a reference model", "Unreadable contents of a variant, options and lists that are empty inside of one are left open; variants with named fields are only judged as written (C02), reading them is a known finding (C01).")

prop("C12", "No input makes deserialization panic, loop or overflow the stack on unknown data",
     "For every byte sequence, deserialization into a derived type returns a value or an error within a number of steps linear in the input: it does not panic, does not loop and does not recurse on content it does not know. Serialization does not panic for any value.",
     ["inputs", "programs"], "all byte sequences for all derived types, all values",
     "Tests are well-formed documents but for a handful; truncated enums, unparsable contents and deep unknown content are not tried.",
     [("end of document", DE + " EndDocument"), ("end of document in enums", DEE + " EndDocument"), ("errors of visitors", DEE + " simple_type_visitor"), ("skip_element", RD + " skip_element")],
     IO + ["yaserde::verif::counters"], "runtime monitor: structured fuzzing with a step budget, panic and crash oracle", "Known elements of recursive types recurse on the stack; depth there is bounded at 150.")

prop("C13", "Truncated or ill-formed documents are never accepted",
     "If the input ends before the end of the root element, or is not well-formed up to there, deserialization returns an error, whatever fields were complete by then and whatever type is read.",
     ["inputs", "programs", "crash_points"], "all documents cut at every byte and broken anywhere before the end of the root",
     "Tests hold a few ill-formed documents and no systematic truncation.",
     [("errors of the parser", RD + " inner_next"), ("errors passed on", DE + " loop over events"), ("end of document", DEE + " EndDocument"), ("inner values", RD + " read_inner_value"), ("wrappers", PRIM + " deserialize_primitives")],
     ["yaserde::de::from_reader"], "runtime monitor: every prefix and broken variants, oracle from the parser alone", "Every byte of short documents in the quick tier, of all in the thorough one.", level="fault_enumeration")

prop("C14", "I/O errors surface, and slow streams change nothing",
     "Any error of the underlying reader before the end of the root, and any error of the underlying writer, at any byte, makes the call return an error instead of a value, a success or a panic. Readers and writers that move few bytes at a time or are interrupted change neither the value nor the bytes.",
     ["fault_sequences", "crash_points", "inputs", "programs"], "every point of failure, kind of failure and chunking of the stream, for all types and values",
     "No test uses a failing or slow reader or writer.",
     [("errors of scalars", LIB + " serialize_type"), ("errors of wrappers", PRIM), ("errors of elements", EL), ("errors of start elements", IMPL), ("errors of the reader", RD + " inner_next"), ("entry points", WR + " serialize_with_writer")],
     ["yaserde::de::from_reader", "yaserde::ser::serialize_with_writer*"], "runtime monitor: fault injection at the stream, byte by byte", "Failures at 40 to 60 points per document in the quick tier, at all in the thorough one.", level="fault_enumeration")

prop("C15", "The reader given to custom implementations keeps its contract",
     "Peeking never consumes and always shows the next event; reading returns the events of the document in order; the depth is the number of open elements; skipping an element consumes exactly the rest of it and shows it to the callback; reading an inner value consumes exactly one element and leaves the reader behind it even if the given function fails or stops early; expecting an end element succeeds only on that one.",
     ["inputs", "histories"], "all documents and all sequences of reader operations",
     "Tests use the reader through derived code only.",
     [("peek", RD + " peek"), ("next_event", RD + " next_event"), ("skip_element", RD + " skip_element"), ("read_inner_value", RD + " read_inner_value"), ("expect_end_element", RD + " expect_end_element")],
     ["yaserde::de::Deserializer"], "runtime monitor: random operation histories against an event-list model", "Functions given to read_inner_value stay within their element.",
     state=[dict(name="depth", meaning="open elements", where=RD), dict(name="peeked", meaning="event seen but not consumed", where=RD)])

prop("C16", "Wrapped primitives and hexBinary carry exactly their value",
     "Types deriving the primitive wrappers, or implementing Display and FromStr themselves, are written as the text of their value and read back to it in every position; hexBinary values are written as upper-case hexadecimal of at least two digits and read as such. A text the wrapped type rejects is an error and never some other value.",
     ["inputs", "programs"], "all wrapped types, all values and texts, in all positions",
     "Tests hold one or two values of few wrapped types.",
     [("wrappers", PRIMD), ("reading and writing wrappers", PRIM), ("attributes of other types", DE + " visit_struct"), ("content without element", WR + " to_string_content")],
     IO, "runtime monitor: exhaustive short texts and small types, random others, against a reference scanner", "Wrapped strings in attributes are escaped twice (known finding).")

prop("C17", "Calls are independent of each other, of threads and of logging",
     "The result of every call is a function of its arguments: it is the same, error messages included, whatever was read or written before, whether earlier calls failed, whatever other threads do at the same time, and whether log output is collected.",
     ["schedules", "histories", "inputs", "programs"], "all sequences and interleavings of calls on any types",
     "Tests run each call once; none runs threads or enables the log statements in generated code.",
     [("no shared state in the reader", RD), ("no shared state in the writer", WR), ("log statements in generated code", DE + " __derive_debug")],
     IO, "runtime monitor: repeated calls compared across orders, threads and log levels", "Threads are scheduled by the operating system; three at a time next to seven other workers.")

prop("C18", "Work and memory grow no faster than the input",
     "For every type, the steps taken, the allocations made and the memory held while reading grow no faster than linearly with the number of list items, unknown elements, their depth, attributes, text and comments of the document, and writing grows no faster than the value.",
     ["inputs", "programs"], "all families of documents that grow in one dimension, for all derived types",
     "Tests hold small documents and do not measure.",
     [("skip_element", RD + " skip_element"), ("one peeked event", RD + " peek"), ("unused events", DE + " build_code_for_unused_xml_events"), ("flattened fields", RD + " from_flattened"), ("start elements", IMPL)],
     IO + ["yaserde::verif::counters"], "runtime monitor: step and allocation counters over growing documents", "Work that neither allocates nor takes events is not seen. The nesting of known elements is fixed.")

prop("C19", "All entry points and settings agree",
     "to_string, to_string_with_config, serialize_with_writer and their content variants write the same document up to exactly what the settings say: the XML declaration, and white space between elements for indentation; content variants give the content of the element. from_str and from_reader agree on every document, and reading any of the outputs gives the same value.",
     ["inputs", "configurations", "programs"], "all values, all settings, all entry points",
     "Tests use to_string nearly everywhere.",
     [("entry points", WR), ("entry points of reading", RD + " from_str"), ("leaving out the element", IMPL), ("wrappers", PRIM)],
     IO, "runtime monitor: differential execution of the entry points", "Indentation inside of text is xml-rs's and not compared.")

prop("C20", "Lists keep every item, in order",
     "Every list holds exactly the values of its elements in document order, however many they are and however the items of different fields are interleaved with each other and with other elements; no item is lost, duplicated, moved to another list or merged with its neighbour. Lists in attributes hold the words of the attribute in order.",
     ["inputs", "programs"], "all types with lists, all numbers and interleavings of items",
     "Tests hold lists of two or three items in one run.",
     [("list fields", DE + " push"), ("list variants", DEE + " parse_variant"), ("writing lists", DS + " FieldVec"), ("lists in attributes", DE + " visit_vec")],
     IO, "runtime monitor: random interleavings, judged by conservation and order of numbered items in a reference model", "Up to hundreds of items per list.")

prop("C21", "Implementations compose: each uses exactly its own element",
     "The trait implementation of every derived or wrapped type, called on a reader at its start element, consumes that element up to its end element and nothing else, whatever is inside, so that a caller can read the next sibling; called on a writer with a name of the caller's, it writes one element of that name, and nothing of it affects the next value.",
     ["histories", "inputs", "programs"], "all types and all sequences of values read or written one after the other by a hand-written caller",
     "Tests call the traits directly in one or two places with simple content.",
     [("end of a struct", DE + " EndElement"), ("end of an enum", DEE + " EndElement"), ("end of a wrapper", PRIM + " deserialize_primitives"), ("names of the caller's", IMPL), ("start event name", WR + " set_start_event_name")],
     ["YaDeserialize::deserialize on a Deserializer", "YaSerialize::serialize on a Serializer"], "runtime monitor: sequences of values through one reader or writer, compared with each alone", "Types marked as flattened themselves are left out: they read to the end of the document.")


prop("C22", "Safe use never causes undefined behaviour or data races",
     "No derived type, value, document, stream, failure of a stream or schedule of threads makes safe use of yaserde's API read or write memory it must not: no out-of-bounds, dangling, uninitialised or aliasing-breaking access, no invalid value (such as a String that is not UTF-8), no data race between calls that share nothing.",
     ["inputs", "schedules", "programs", "fault_sequences"], "all derived types, inputs, streams that fail, and schedules of threads that read and write at once",
     "Tests run one thread and no checker: undefined behaviour and races mostly go unnoticed in an ordinary run.",
     [("reader", RD), ("writer", WR), ("scalars and entry points", LIB), ("wrapped primitives", PRIM), ("generated deserializers", DE + " parse"), ("generated serializers", DS + " serialize")],
     ["any call of the public API"], "Miri (interpreter with race detector) and AddressSanitizer over generated workloads", "yaserde has no unsafe code of its own today. Miri sees some hundred cases per run, AddressSanitizer tens of thousands.", hook="none")

prop("C23", "Writing composes: values fit in any element and writer of the caller's",
     "A caller that writes an element of its own with what serialize_attributes adds to its attributes and namespaces, and then has a value write itself with skip_start_end set, gets exactly the attributes and the content the value's type declares, next to its own. Through a Serializer around an event writer of the caller's, whatever its settings, a value is the same element tree. Wrapped scalars leave that setting as they find it. A Serializer keeps the name and the flag it is given and hands every event on.",
     ["inputs", "programs", "configurations", "histories"], "all types and values, all callers (attributes, namespaces, writer settings), all sequences of operations on a Serializer",
     "Tests call the traits through the entry points; none uses serialize_attributes by hand or another event writer.",
     [("attributes and content apart", IMPL + " serialize_attributes"), ("attributes of structs", DS + " append_attributes"), ("attributes of enums", DSE + " variant_matches"), ("CDATA", DS + " is_cdata"), ("state of the writer", WR + " Serializer"), ("scalars", LIB + " serialize_type"), ("wrappers", PRIM + " serialize_primitives")],
     ["YaSerialize::serialize and serialize_attributes on a Serializer"], "runtime monitor: trait calls of a hand-written caller, judged by a strict reader and a reference model", "Settings that turn off escaping, and callers' attributes that clash with the type's, are not explored.")


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["line"]["title"]) <= 80, p["line"]["title"]
            f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
    hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add observation points"], text=True).split()
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="cfg(yaserde_verif)", enable="RUSTFLAGS='--cfg yaserde_verif' (tools/env.sh)", source_commits=hook),
             checks=[dict(property=p["line"]["id"], quick_cmd=f"bash check.sh {p['line']['id']} quick", thorough_cmd=f"bash check.sh {p['line']['id']} thorough",
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
             not_applicable=[],
             notes="Each check rebuilds the derived types of harness/zoo* and the monitors against /repo's working tree. tools/props.py writes this file and properties.jsonl.")
    json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)


main()
