#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "External tagging writes exactly one entry: tag to the type's own data",
 "Serializing a trait object of an externally tagged trait presents the format with exactly one map, declared as having one entry, whose key is the string tag of the concrete type and whose value is exactly what the concrete type serializes on its own: the same kinds, names, variant indices, declared lengths, entry order, values and human-readability. This holds for whatever the concrete type serializes (any serde data-model shape) and for every format.",
 ["inputs", "configurations"], "every concrete type shape and value, every tag string, every serializer",
 "Two struct types serialized to JSON and postcard are sampled; other shapes, declared lengths, human-readability and what the serializer sees are never observed.",
 ["src/externally.rs", "src/ser.rs", "impl/src/tagged_trait.rs"],
 [("externally::serialize", "src/externally.rs"), ("Wrap", "src/ser.rs"), ("generated Serialize impl", "impl/src/tagged_trait.rs externally_tagged")],
 ["serde Serializer calls made by the trait object's Serialize impl"])

prop("C02", "Adjacent tagging writes exactly a tag field and a content field",
 "Serializing a trait object of an adjacently tagged trait presents the format with exactly one struct, named after the trait and declared as having two fields: first the configured tag field holding the concrete type's tag as a string, then the configured content field holding exactly what the concrete type serializes on its own (kinds, names, variant indices, declared lengths, order, values, human-readability). This holds for any data shape, any tag and content field names, and every format.",
 ["inputs", "configurations"], "every concrete type shape and value, every tag/content field name and tag string, every serializer",
 "Two struct types serialized to JSON and postcard are sampled; other shapes, struct name, declared length and human-readability are never observed.",
 ["src/adjacently.rs", "src/ser.rs", "impl/src/tagged_trait.rs"],
 [("adjacently::serialize", "src/adjacently.rs"), ("generated Serialize impl", "impl/src/tagged_trait.rs adjacently_tagged")],
 ["serde Serializer calls made by the trait object's Serialize impl"])

prop("C03", "Internal tagging merges the tag into one well-formed map",
 "Serializing a trait object of an internally tagged trait presents the format with exactly one map whose first entry, written once, is the tag field with the concrete type's tag, and whose declared length (where the data declares one) equals the number of entries written. After the tag, a struct's fields or a map's entries follow in order as entries of that same map, unit-like data and none add nothing, an enum value adds one entry named after its variant holding the variant's payload, a newtype struct behaves as its content, and anything else adds one entry named \"value\" holding the data. All data inside those entries is exactly what the concrete type serializes there, including kinds, names, variant indices, order and the format's human-readability.",
 ["inputs", "configurations"], "every concrete type shape and value, every tag field name and tag string, every serializer; data that itself uses the tag field's name as an entry is C11's subject",
 "Only a few shapes are sampled in JSON and postcard; the buffered sequence, tuple and variant paths, declared lengths and nested values are not observed for arbitrary data.",
 ["src/internally.rs", "src/ser.rs"],
 [("InternallyTaggedSerializer", "src/ser.rs"), ("Content / ContentSerializer buffering", "src/ser.rs"), ("SerializeStructAsMap", "src/ser.rs")],
 ["serde Serializer calls made by the trait object's Serialize impl"])

prop("C04", "Objects round-trip through self-describing formats",
 "In a self-describing format (JSON text, bytes, reader or value tree, RON, CBOR, TOML), deserializing what was serialized from a trait object yields an object of the same concrete type with an equal value, in all three tagging styles. It holds for every kind of concrete type (structs, tuple structs, unit structs, newtypes, enums with every kind of variant, primitives, strings, bytes, options, sequences, tuples, maps with string-like keys, nested combinations) and every value the format round-trips for the concrete type on its own.",
 ["inputs", "configurations"], "every concrete type kind and value, every tagging style, every self-describing format",
 "Tests parse a handful of small JSON documents; values, kinds, buffered paths and other formats are unsampled.",
 ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/content.rs", "src/ser.rs", "src/de.rs"],
 [("tagged visitors", "src/{externally,internally,adjacently}.rs"), ("Content buffering", "src/content.rs"), ("MapWithStringKeys", "src/internally.rs")],
 ["value and concrete type of the deserialized Box<dyn Trait>"])

prop("C05", "Objects round-trip through compact binary formats",
 "In a format that is not self-describing (such as Bincode or Postcard), a serialized trait object deserializes to an object of the same concrete type and an equal value in all three tagging styles, for every kind of concrete type the format supports on its own. Deserialization consumes exactly the bytes serialization wrote, so objects embedded in larger structures or concatenated in a stream do not disturb their neighbours.",
 ["inputs", "configurations"], "every concrete type kind and value, every tagging style, every positional format",
 "Three postcard round trips of one struct each are sampled; enums, tuples, options, maps, human-readability-dependent types and neighbouring data are not.",
 ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/ser.rs", "src/de.rs"],
 [("MapWithStringKeys / MapEntryAsEnum", "src/internally.rs"), ("visit_seq", "src/adjacently.rs"), ("declared map length", "src/ser.rs")],
 ["bytes written and consumed", "value and concrete type of the deserialized Box<dyn Trait>"])

prop("C06", "The position of the tag in a document does not matter",
 "In a self-describing format, moving the tag entry of an internally tagged document, or permuting the entries of an adjacently tagged one, to any position never changes what is read: the same concrete type with an equal value. This holds for data whose types the format itself describes and whose map keys are strings.",
 ["inputs", "configurations"], "every permutation of the entries of every document, every concrete type kind and value",
 "One adjacent and one internal document with a moved tag are sampled, both with a small struct.",
 ["src/internally.rs", "src/adjacently.rs", "src/content.rs"],
 [("entry buffering", "src/internally.rs TaggedVisitor::visit_map"), ("content buffering", "src/adjacently.rs TaggedVisitor::visit_map"), ("Content / ContentDeserializer", "src/content.rs")],
 ["value and concrete type of the deserialized Box<dyn Trait>"])

prop("C07", "A tag selects exactly the type registered under it for that trait",
 "Deserialization produces the type registered for the trait under exactly the tag in the document, compared as whole strings (no case folding, prefix, trimming or normalization), however many types are registered and whatever their names. A tag that is not registered for that trait is rejected with an error naming the offending tag and listing every registered name, and types registered for another trait are never selected. The tag written for an object is exactly the name its type was registered under.",
 ["inputs", "configurations"], "every set of registered names, every tag string, every tagging style",
 "Tests use traits with two or three types whose names are dissimilar; unknown tags, near-miss names and cross-trait names are not sampled.",
 ["src/de.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"],
 [("MapLookupVisitor", "src/de.rs"), ("registry construction", "impl/src/tagged_trait.rs static_registry")],
 ["concrete type of the deserialized object", "error text"],
 [("registry", "per-trait map from tag to constructor", "impl/src/tagged_trait.rs static_registry")])

prop("C08", "A tag registered more than once is always rejected as ambiguous",
 "If two or more types of a trait are registered under the same tag (any number of times, in any registration order), every attempt to deserialize that tag fails with an error saying the tag is not unique and naming it, and never silently picks one of the types, including when it is the default variant. All other tags of that trait, and the same tag in other traits, keep working, and the types still serialize.",
 ["inputs", "configurations", "histories"], "every multiplicity and link order of duplicate registrations, every tagging style, before and after other lookups",
 "No test registers a duplicate tag.",
 ["src/de.rs", "impl/src/tagged_trait.rs"],
 [("Occupied entry is replaced by None", "impl/src/tagged_trait.rs static_registry"), ("non-unique tag error", "src/de.rs")],
 ["result of deserialization, error text"])

prop("C09", "The adjacent envelope is validated as documented",
 "An adjacently tagged document is accepted only if it has the tag exactly once (or omits it where a default variant is configured, which then reads the content) and the content at most once; a missing content field stands for unit, so only types readable from unit accept it. Fields other than tag and content are ignored wherever they appear and whatever their value, unless unknown fields are denied, in which case any of them is rejected with an error naming it. In sequence form the two elements are the tag then the content, and both are required.",
 ["inputs", "configurations"], "every multiset and order of envelope entries, every configuration of default variant and unknown-field policy",
 "Three small documents are sampled for defaults and unknown fields; duplicates, missing fields and positions of unknown fields are not.",
 ["src/adjacently.rs"], [("TaggedVisitor::visit_map / visit_seq", "src/adjacently.rs"), ("TagContentOtherFieldVisitor", "src/adjacently.rs")],
 ["result of deserialization, error text"])

prop("C10", "Internal documents without a tag use the default variant or are rejected",
 "An internally tagged document without a tag entry is rejected with an error naming the missing tag field, unless the trait has a default variant, in which case the whole document is read as the default type exactly as if its tag had been written. A tag that is present always wins over the default variant, and an unknown tag is rejected even when a default variant exists. Data that is not a map is read from the entry named 'value' and from no other.",
 ["inputs", "configurations"], "every tagless document, every default type kind",
 "Two small JSON documents with a struct default are sampled.",
 ["src/internally.rs"], [("default_variant handling", "src/internally.rs TaggedVisitor::visit_map")],
 ["result of deserialization, error text"])

prop("C11", "A struct field named like the tag never produces a conflicting document",
 "When a struct serialized through an internally tagged trait has a field with the tag field's name, the document contains the tag entry once: a field whose value is the string equal to the tag is folded into it, and any other value makes serialization fail with an error naming the tag, never a document with a duplicated or overwritten tag. The remaining fields are written as usual, and the declared length matches when the tag is the struct's first field.",
 ["inputs"], "every struct shape, field position and field value (string, non-string, wrapped)",
 "Two documents are sampled (one matching, one mismatching string).",
 ["src/ser.rs", "src/is_serialize_str.rs"], [("SerializeStructAsMap::serialize_field", "src/ser.rs"), ("expect_str", "src/is_serialize_str.rs")],
 ["serde Serializer calls and result"])

prop("C12", "Failures surface as errors and stop the work",
 "If any step of serializing a trait object fails, whether in the format or in the concrete type's own code, serialization returns an error carrying that failure's message and makes no further call into the format; likewise for deserialization. No failure is turned into success, replaced by an unrelated error or a panic, and a failed operation leaves nothing behind that changes later operations.",
 ["fault_sequences", "inputs"], "a failure injected at every single step of every operation, every tagging style and data shape",
 "No test injects a failure; only two expected-error cases exist.",
 ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/ser.rs", "src/de.rs", "src/content.rs"],
 [("? propagation", "src/*.rs"), ("FnApply error conversion", "src/de.rs")],
 ["results, error text, serializer/deserializer call log"])

prop("C13", "Concurrent use, including first use, gives the sequential results",
 "Any number of threads may serialize and deserialize trait objects of the same or different traits at the same time, including when they race to be the first to deserialize, and each operation gives the result it would give alone. There is no data race, deadlock or livelock, and a thread never observes a partially built set of registered types.",
 ["schedules"], "every interleaving of first and later uses by any number of threads",
 "Tests never use a trait from two threads on purpose and never check results under contention.",
 ["impl/src/tagged_trait.rs"], [("OnceBox registry", "impl/src/tagged_trait.rs static_registry")],
 ["results of concurrent operations, race detector reports"],
 [("TYPETAG", "lazily built per-trait registry", "impl/src/tagged_trait.rs static_registry")])

prop("C14", "No leaks, double drops, memory errors or input-driven over-allocation",
 "Every deserialized object is dropped exactly once, failed or panicking operations release everything they built, and repeated operations do not accumulate memory once a trait has been used. Memory used by an operation is proportional to the data actually present, never to a length or size hint claimed by the input, and no execution has undefined behaviour.",
 ["inputs", "fault_sequences", "histories"], "every document including truncated and lying ones, every failure point, any number of repetitions",
 "No test measures memory, drops, or runs under a sanitizer.",
 ["src/content.rs", "src/ser.rs", "src/de.rs", "src/internally.rs", "src/adjacently.rs"],
 [("Vec::new() growth in buffering", "src/content.rs ContentVisitor"), ("ownership of boxed objects", "src/de.rs FnApply")],
 ["allocator counters, drop counters, sanitizer reports"])

prop("C15", "Arbitrary input never panics and never yields an unstable object",
 "Deserializing a trait object from arbitrary bytes, text or value trees returns either an error or an object, without panicking or looping. Any object it accepts can be serialized again, and reading that result gives the same concrete type and the same serialization.",
 ["inputs"], "arbitrary and mutated documents in every supported format and tagging style",
 "Tests only feed well-formed documents and one unknown field.",
 ["src/content.rs", "src/internally.rs", "src/adjacently.rs", "src/externally.rs"],
 [("visitors and buffered deserializers", "src/{internally,adjacently,externally,content}.rs")],
 ["results, panics, re-serialized documents"])

prop("C16", "Every documented attribute form means what it says",
 "Every accepted form of the attributes (tagging style by presence of tag and content, default_variant and deny_unknown_fields in either order, optional trailing commas, explicit names given as literals or constant expressions, serialize-only and deserialize-only, any visibility, attributes and documentation on the item) compiles and configures exactly the behaviour it spells out, independent of the surrounding names in scope. Without an explicit name the tag is the last path segment of the implementing type, without generic arguments.",
 ["programs", "configurations"], "every combination of attribute arguments, name forms, trait and impl forms",
 "Tests use about eight fixed attribute forms.",
 ["impl/src/parse.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs", "impl/src/lib.rs"],
 [("TraitArgs / ImplArgs parsing", "impl/src/parse.rs"), ("type_name", "impl/src/tagged_impl.rs")],
 ["behaviour of generated programs"])

prop("C17", "Send and Sync trait objects behave like the plain trait object",
 "A trait object with added Send or Sync markers, or behind any owning pointer or reference, serializes to the same document as the plain trait object, and boxed trait objects with every marker combination implied by the trait's supertraits deserialize to the same type and value and fail on the same documents with the same error.",
 ["inputs", "configurations"], "every marker combination, tagging style, document and value",
 "Tests only check that marker combinations compile.",
 ["impl/src/tagged_trait.rs"], [("marker trait impls", "impl/src/tagged_trait.rs expand"), ("Strictest", "src/private.rs")],
 ["documents, values and errors per marker combination"])

prop("C18", "Unsupported or incomplete uses are rejected at compile time",
 "Programs that the library cannot serve correctly do not compile: traits with associated constants or unrestricted associated types, generic traits or impls with deserialization, inherent impls and other items, impls missing the attribute or carrying the wrong one, unnamed types without an explicit name, malformed or unknown or repeated attribute arguments, concrete types that are not serializable or deserializable, and requesting deserialization of a pointer whose markers the trait does not guarantee. The same programs with the offending part corrected do compile.",
 ["programs"], "every unsupported construct in every tagging style and mode",
 "Six fixed programs are sampled; missing attributes, wrong modes and malformed arguments are not.",
 ["impl/src/parse.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"],
 [("parse errors", "impl/src/parse.rs"), ("hidden required methods", "impl/src/tagged_trait.rs augment_trait"), ("Strictest registration type", "impl/src/tagged_impl.rs")],
 ["compiler verdict on generated programs"])

prop("C19", "Every linked impl is registered, wherever it is written",
 "Every attributed impl in any crate of the final program is available for deserialization, whether written in the trait's own crate or another, in nested modules, inside functions, or produced by macros, and however many there are. An impl is registered for exactly its own trait, and using one trait first has no influence on what is registered for another.",
 ["programs", "configurations", "histories"], "every placement and number of impls and every order of first uses",
 "Tests have a handful of impls in one crate plus one macro-generated impl.",
 ["impl/src/tagged_impl.rs", "impl/src/tagged_trait.rs"],
 [("inventory::submit!", "impl/src/tagged_impl.rs"), ("inventory::collect!", "impl/src/tagged_trait.rs build_registry")],
 ["set of tags that deserialize, per trait"])

prop("C20", "The concrete type deserializes as if it were on its own",
 "When a trait object is deserialized, the concrete type's own Deserialize code sees the same data, through the same kind of request to the format (kind, names, field and variant lists, lengths, size information, human-readability), as it would reading its data without the trait object: always in external and adjacent tagging with the tag before the content, and for the values inside internally tagged documents. Handwritten implementations using any deserialization request work in every tagging style.",
 ["inputs", "programs"], "every sequence of deserialization requests against every document shape, strict and lenient formats",
 "Only derived implementations on JSON and postcard are sampled, and requests reaching the format are not observed.",
 ["src/internally.rs", "src/adjacently.rs", "src/externally.rs", "src/content.rs", "src/de.rs"],
 [("MapWithStringKeys forwarding", "src/internally.rs"), ("ContentDeserializer", "src/content.rs"), ("FnApply", "src/de.rs")],
 ["requests received by the format's Deserializer, values received by visitors"])

prop("C21", "Nesting and history have no influence on results",
 "Trait objects nested inside trait objects, of the same or other traits and tagging styles and to any depth, serialize and deserialize just as they do alone. The result of an operation depends only on its input, never on earlier operations, whether they succeeded, failed or panicked, nor on an operation already in progress on the same thread.",
 ["histories", "inputs"], "every nesting and every sequence of earlier or enclosing operations",
 "Tests run one operation each and nest nothing.",
 ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "impl/src/tagged_trait.rs"],
 [("registry reached through a shared reference only", "impl/src/tagged_trait.rs static_registry")],
 ["results of operations in different histories"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
