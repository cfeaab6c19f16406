# Writes /verif/properties.jsonl (one JSON object per line). Run by hand after editing.
import json, os
S='instant-xml/src/'; M='instant-xml-macros/src/'
def m(name, where): return {"name":name,"where":where}
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Deserializing what was serialized gives back the same value",
 "For every type deriving both ToXml and FromXml and every value v of it, whenever to_string(&v) returns Ok(xml), from_str(&xml) returns Ok of a value equal to v. "
 "This holds for every field kind and combination (attributes, elements, optional, repeated, boxed, nested, direct text, namespaced fields, scalar and forward enums, transparent structs, tuple and unit structs, numbers, strings, dates, IP addresses), lists being element fields, at any list length and any nesting within the default limits, and however the value is held for writing (itself, a reference, a box, a Cow, a slice). "
 "Excluded are only values whose XML is by construction indistinguishable from another value's (NaN, an optional direct text holding the empty string, an optional list, a box around an option or list, lists of transparent structs with several fields, non-element fields of tuple structs).",
 ["inputs","programs"],"all values of all derived types (bounded: every listed field-kind pair, all small trees of namespaced containers, all listed scalar values)",
 "Tests round-trip about 20 hand-picked values; the field kinds interact (ordering, shared cursor, shared namespace state), so pairs and nestings matter and are not sampled.",
 [S+"ser.rs",S+"de.rs",S+"impls.rs",M+"ser.rs",M+"de.rs"],
 [m("derive(ToXml) body generation",M+"ser.rs"),m("derive(FromXml) loop, accumulators",M+"de.rs"),m("scalar impls",S+"impls.rs")],
 observe=["to_string","from_str"])

p("C02","Output is well-formed XML that denotes exactly the value serialized",
 "Whenever to_string or to_writer succeeds on a value of a derived struct type, the output is one well-formed, namespace-well-formed XML element whose expanded names (namespace URI and local name), attributes, text and child order are exactly those the type's declarations assign to the value; a value held by reference, in a box, a Cow or a slice is written as the value itself. "
 "Namespace declarations written for one element never influence siblings or anything outside that element, however containers with different namespaces, prefixes and force_prefix are nested, repeated or left empty.",
 ["inputs","programs"],"all values of derived types, in particular all trees of containers over every combination of own namespace, declared prefixes and force_prefix",
 "Tests fix a handful of nestings; the writer's namespace map is mutable state saved and restored around each element, so errors need particular sibling/nesting histories.",
 [S+"ser.rs",M+"ser.rs"],
 [m("save/restore of default namespace and prefix map","ser.rs write_start/write_close/end_empty"),m("start/empty/close choice",M+"ser.rs")],
 [{"name":"prefix map","meaning":"namespace URI -> prefix in scope","where":S+"ser.rs Serializer.prefixes"},{"name":"default namespace","meaning":"what an unprefixed name means at this point","where":S+"ser.rs Serializer.default_ns"}],
 ["to_string","to_writer"])

p("C03","Names match by namespace URI and local name under XML scoping, never by prefix",
 "Two documents that differ only in how namespaces are spelled (which prefixes are used, default or prefixed form, where declarations are placed or redundantly repeated, rebinding and shadowing on descendants, xmlns=\"\" undeclaration) deserialize to the same result for every type. "
 "An element or attribute whose expanded name differs from what the type expects in namespace URI or local name is never taken for it; unprefixed attributes have no namespace; scope of a declaration ends with its element.",
 ["inputs"],"all documents over small sets of prefixes, URIs and local names, with declarations at every element",
 "Tests cover a dozen fixed spellings; shadowing, scope exit and attribute-versus-default rules depend on the declaration history on the element stack.",
 [S+"de.rs",M+"de.rs"],
 [m("innermost-first lookup, default namespace resolution",S+"de.rs element_id/attribute_id/lookup/default_ns"),m("matches() on expanded names",M+"de.rs")],
 [{"name":"element stack","meaning":"open elements and their declarations","where":S+"de.rs Context.stack"}],
 ["from_str"])

p("C04","Character data is decoded exactly, and bad references are errors",
 "For a string field read from an attribute or from element text, the value is exactly the document's character data: the five predefined entities and decimal or hexadecimal character references replaced by their characters, CDATA taken literally, comments dropped, all other characters unchanged, and the parts concatenated in order. "
 "A reference that is unterminated, unknown, or denotes no legal XML character makes deserialization fail rather than yield a value.",
 ["inputs"],"all texts over a small alphabet of ordinary, multi-byte and markup pieces up to a length, all Unicode scalar values as references, all positions in long texts",
 "decode is tested with 23 strings; it is a byte state machine with offset bookkeeping over multi-byte text, and how text runs are split by comments and CDATA is untested.",
 [S+"de.rs"],
 [m("entity state machine and offset bookkeeping",S+"de.rs decode"),m("text/CDATA/comment token handling",S+"de.rs Context::next")],
 observe=["from_str","Deserializer::take_str"])

p("C05","Every string is escaped so it cannot alter the document, and reads back intact",
 "For every string or char value, in element text, attribute, direct text, list item or enum variant name, the written output contains it only as character data: parsing the output recovers exactly that string and the surrounding structure is unchanged. "
 "A value containing a character that XML 1.0 cannot represent is refused with an error instead of written.",
 ["inputs"],"every Unicode scalar value and all strings over markup-significant and multi-byte characters up to a length, in each position",
 "Tests use 5 strings; escaping copies slices between special characters, so order, adjacency and multi-byte neighbours matter.",
 [S+"impls.rs",S+"ser.rs",M+"ser.rs"],
 [m("escape with slice bookkeeping",S+"impls.rs encode"),m("string-like ToXml impls",S+"impls.rs"),m("scalar enum variant text",M+"ser.rs")],
 observe=["to_string"])

p("C06","Malformed or incomplete documents never produce a value",
 "from_str never returns Ok for a document that is not well-formed: cut off anywhere before the root's end tag is complete, an end tag that does not match the innermost open element by its full name, missing or extra end tags, an undeclared element prefix, broken tags, references or characters, or anything but whitespace and comments after the root. "
 "This holds for every target type, wherever in the document the fault is, including in parts the type ignores or a hand-written implementation leaves unread (a well-formed rest is skipped).",
 ["inputs"],"all truncations of all generated documents, and all bounded token sequences",
 "Tests contain no truncated document and two mismatched tags; acceptance depends on which consumer (struct loop, scalar, ignore, enum) sees the end of input.",
 [S+"de.rs",S+"lib.rs",M+"de.rs"],
 [m("close-tag matching and depth check",S+"de.rs Deserializer::next, Context::next"),m("end of input handling",S+"de.rs"),m("from_str",S+"lib.rs")],
 observe=["from_str"])

p("C07","No input or value makes the library panic, hang or overflow",
 "from_str, for any input string and any derived target type, and to_string, for any value nested within the limits for reading, return in time proportional to the input with Ok or Err; they never panic, abort, loop or exhaust the stack, whatever the nesting depth, length, characters or brokenness of the input. "
 "The same holds for the pull interface on any sequence of calls.",
 ["inputs","histories"],"all strings over the markup alphabet up to a length, deep and long inputs, all bounded call sequences",
 "Tests feed almost only valid documents; the code has index arithmetic, unwrap and recursion on input-controlled paths.",
 [S+"de.rs",S+"ser.rs",S+"impls.rs",S+"any_element.rs",M+"de.rs"],
 [m("depth limit before recursion",S+"de.rs Context::next"),m("char-boundary slicing",S+"de.rs decode"),m("level arithmetic",S+"de.rs Deserializer::next")],
 observe=["from_str","Deserializer","to_string"])

p("C08","Missing, repeated and optional content is accounted for exactly",
 "When a derived struct is deserialized, an absent required field gives a missing-value error, an absent optional field None and an absent list an empty list; a list gets every occurrence, in document order, interleaved with anything else; and a second occurrence of a single-valued field (scalar or element, required, optional or boxed) gives a duplicate-value error instead of silently picking one. "
 "A present field with unparsable content is an error, never treated as absent (an empty element of a scalar type other than a string counts as absent). Direct text that comes in pieces with elements between them is taken whole or refused.",
 ["inputs"],"all sequences of field occurrences up to a length for every field kind",
 "Tests have a few missing-value cases and no repeated element; each field kind has its own accumulator.",
 [M+"de.rs",S+"lib.rs",S+"impls.rs",S+"any_element.rs"],
 [m("accumulators and try_done",S+"lib.rs Accumulate, "+S+"impls.rs"),m("derived match loop",M+"de.rs")],
 observe=["from_str"])

p("C09","Content a type does not ask for never changes the result",
 "Inserting unknown elements (with any well-formed subtree, also reusing known names at a deeper level or in another namespace), unknown attributes, comments, an XML declaration, whitespace between elements or inside tags, or reordering fields and attributes of different names in a document leaves the deserialized value unchanged for every derived struct with named fields (text and elements going only where the struct has no direct text), for unit structs, and after the last field of tuple structs. "
 "Equivalent spellings of empty elements, quotes and start/end tags are likewise interchangeable.",
 ["inputs"],"every insertion point and every listed insertion into every generated document, and all permutations",
 "Tests insert comments in one document and one unknown element; skipping relies on the shared cursor being left exactly after the skipped subtree.",
 [S+"de.rs",M+"de.rs"],
 [m("ignore()",S+"de.rs"),m("nested cursor levels",S+"de.rs Deserializer::nested/next"),m("__Ignore branches",M+"de.rs")],
 observe=["from_str"])

p("C10","Resource limits cut off exactly at the configured bound",
 "A document is accepted up to and rejected beyond the limits: by default 64 attributes per element, 32 nested element levels and 32 prefix declarations per element (a default namespace declaration counts as neither attribute nor prefix), and any other values set through the deserializer's limits for everything after the root start tag, or through those of a nested one for what is inside its element. "
 "Limits count per element and per depth, independent of siblings, of what was read before, and of whether the element is consumed or ignored.",
 ["inputs","configurations"],"all counts 0..limit+2 at every depth and sibling position, all small limit settings",
 "No test reaches any limit.",
 [S+"de.rs"],
 [m("limit comparisons",S+"de.rs Context::next"),m("with_limits",S+"de.rs")],
 [{"name":"Limits","meaning":"configured bounds","where":S+"de.rs Limits"}],
 ["from_str","Deserializer::with_limits"])

p("C11","The serializer accepts exactly the call sequences that build a document",
 "For every sequence of calls to the public serializer (start element with a namespace context, or without one for an element holding only text, attribute, string, end of start tag, empty end, close), a call made in the wrong state returns an error, writes nothing and leaves the serializer as it was, and a sequence in which every call succeeds and every element is closed once, innermost first, writes well-formed XML content denoting those calls. "
 "After any balanced sequence the default namespace and prefix lookups are what they were before it.",
 ["histories"],"all call sequences up to a depth over a small argument alphabet",
 "Tests drive the serializer only through a few derived types; hand-written serializers make arbitrary sequences.",
 [S+"ser.rs"],
 [m("state machine Attribute/Element/Scalar",S+"ser.rs"),m("context save/restore",S+"ser.rs write_start/write_close/end_empty")],
 [{"name":"state","meaning":"which calls are allowed now","where":S+"ser.rs Serializer.state"}],
 ["Serializer"])

p("C12","The pull deserializer stays inside its element and always resumes after it",
 "For every sequence of calls to the public deserializer (next, nested on a returned element, ignore, take_str, for_node, parent, namespace, name resolution), the nodes seen are exactly those of the current element in document order (an opened element being entered with nested before going on), a nested deserializer ends at its own end tag and keeps ending, and after a nested one is exhausted or ignored the outer continues with the next sibling. "
 "A node handed back with for_node is the first one seen and nothing else changes. Prefix and name lookups answer according to the declarations in scope at that point; the empty prefix names none of them, and an unprefixed element keeps its name after it has been read.",
 ["histories","inputs"],"all call scripts up to a depth over a set of documents",
 "Tests use the cursor only through derived code; custom deserializers interleave these calls freely.",
 [S+"de.rs"],
 [m("level/done cursor",S+"de.rs Deserializer::next"),m("records queue",S+"de.rs Context.records"),m("nested/for_node/ignore/take_str",S+"de.rs")],
 [{"name":"level, done","meaning":"extent of the cursor","where":S+"de.rs Deserializer"},{"name":"records","meaning":"pending nodes","where":S+"de.rs Context.records"}],
 ["Deserializer"])

p("C13","A failing writer is always reported and nothing is written after the failure",
 "If the output writer fails at any write, to_writer returns a formatting error for every value and type; what was written is exactly a prefix of what a successful run writes, and the writer is not called again after its failure. "
 "Serializing the same value twice, or to different kinds of writers, produces the same bytes.",
 ["fault_sequences"],"a failure injected at every write of every generated value",
 "No test uses a failing writer; every write call site must propagate its error.",
 [S+"ser.rs",S+"impls.rs",S+"lib.rs",M+"ser.rs"],
 [m("error propagation at each write",S+"ser.rs")],
 observe=["to_writer"])

p("C14","A captured arbitrary element mirrors the document's tree",
 "Deserializing any well-formed element into the dynamic element type, as root or as (optional, repeated, boxed) field, yields its namespace URI, local name, all attributes in order with resolved namespaces, the concatenation of its own text, and all child elements in order, recursively. "
 "Converting it to its owned form changes nothing observable.",
 ["inputs"],"all small trees with namespaced names, attributes and mixed content",
 "Tests check 11 fixed documents; nested scopes, mixed content and siblings combine.",
 [S+"any_element.rs",S+"de.rs"],
 [m("recursive capture",S+"any_element.rs deserialize"),m("into_owned",S+"any_element.rs")],
 observe=["from_str::<AnyElement>","AnyElement::into_owned"])

p("C15","Borrowed string fields borrow whenever the document text allows it",
 "A `Cow<str>` field declared to borrow, of an element's text or an attribute, receives a string slice inside the input for every attribute value or element text that contains no reference (and is not interrupted), and an owned string otherwise, with the same content a non-borrowing field would get. "
 "The same holds for the strings of captured arbitrary elements; empty content gives the empty string and absent content a missing value. Types with any number of borrowing fields and lifetimes compile.",
 ["inputs"],"all texts over a small alphabet with and without references, in each position",
 "One test borrows one string; nothing distinguishes borrowed from owned results.",
 [S+"de.rs",S+"impls.rs",M+"de.rs",M+"lib.rs"],
 [m("borrow_cow_str, Cow-returning decode",S+"de.rs"),m("borrow attribute",M+"de.rs")],
 observe=["from_str"])

p("C16","Scalars map to their canonical text and back, over their whole range",
 "Every integer, float, bool, char, string, IP address and chrono date/time value is written in its canonical text form and read back equal; reading accepts exactly the type's textual form (numbers also with surrounding whitespace, bool as true/false/1/0, date-times as RFC 3339 with zero offset) and rejects everything else, out-of-range included, with an error. "
 "This is the same in elements, attributes, direct text and lists.",
 ["inputs"],"all values of 8- and 16-bit integers, bool and char, boundary sets for wider types, and all short strings over the lexical alphabet as input",
 "Tests cover a few values per type.",
 [S+"impls.rs"],
 [m("per-type impls",S+"impls.rs")],
 observe=["to_string","from_str"])

p("C17","Derive options mean the same to serialization and deserialization",
 "For every legal combination of the documented container, field and variant options (rename, rename_all in each case style, ns with literal, constant or qualified path and any prefix declarations including dashes and dots, attribute, direct, borrow, custom functions, generics and lifetimes), the derives compile and both directions use the name, namespace and node kind documented for it (an element holding a scalar enum or a struct uses that type's own namespace). "
 "An explicit rename or ns on a field or variant takes precedence over the container's rule, whatever the number and order of options.",
 ["programs"],"a generated family of type definitions covering option combinations and identifier shapes",
 "Tests contain about 60 types; options combine.",
 [M+"lib.rs",M+"meta.rs",M+"case.rs",M+"de.rs",M+"ser.rs"],
 [m("attribute parser state machines",M+"meta.rs"),m("RenameRule",M+"case.rs"),m("FieldMeta/VariantMeta precedence",M+"lib.rs")],
 observe=["derive(ToXml)","derive(FromXml)"])

p("C18","No document type, processing instruction or declared entity is ever honoured",
 "A document containing a DOCTYPE, an entity declaration, a processing instruction, or an XML declaration after the start of the root is rejected wherever it occurs, for every target type, before any declared entity could take effect. "
 "References to anything but the five predefined entities and characters are errors, so decoded text is never longer than its source.",
 ["inputs"],"each such construct at every position of every generated document",
 "No test contains a DOCTYPE or processing instruction.",
 [S+"de.rs"],
 [m("token whitelist",S+"de.rs Context::next"),m("closed entity table",S+"de.rs decode")],
 observe=["from_str"])

p("C19","Enums and inlined structs dispatch to exactly the right variant or field",
 "A scalar enum maps each variant to its own text and back, and any other text, differing in case, whitespace or a prefix of a name, is an error; a forward enum picks the variant whose type's expanded element name equals the element's and otherwise does not match; a transparent struct's fields are read from and written into the surrounding element without a wrapper. "
 "Inside optional, repeated and boxed fields the same dispatch applies.",
 ["inputs","programs"],"all variants and near-miss texts; all sequences of elements over the variants' and fields' names and near-misses",
 "Tests cover one or two variants each.",
 [M+"de.rs",M+"ser.rs"],
 [m("scalar/forward/inline generation",M+"de.rs, "+M+"ser.rs")],
 observe=["from_str","to_string"])

p("C20","Namespace declarations in the output follow the documented policy",
 "On output, a prefix declared by an element or an ancestor is used for names in its namespace that are not in the current default namespace and is not declared again while in scope; a namespace without a prefix is declared as xmlns on the element itself; force_prefix makes an element use the prefix in scope for its namespace. "
 "A container's declared prefixes appear on its start tag unless an ancestor already declares a prefix for that namespace, and unprefixed attributes stay unprefixed.",
 ["inputs","programs"],"all trees of containers over combinations of own namespace, declared prefixes and force_prefix",
 "Tests pin about ten outputs.",
 [S+"ser.rs",M+"ser.rs"],
 [m("prefix choice",S+"ser.rs write_start, write_attr")],
 observe=["to_string"])

p("C21","The derives refuse meaningless definitions and accept all others",
 "An option that has no meaning where it stands is a compile error rather than ignored: unknown or incomplete options, an unknown case rule, container options on fields and field options on containers, forward or scalar on a struct, transparent on an enum, an enum without mode or a type with two, names, namespaces, direct or attribute fields in transparent structs, direct before another field, on an attribute or with a custom function, an attribute namespace that is no identifier, variants with the wrong shape for the mode or with other options than rename or with both rename and a value, options on tuple fields, unions. "
 "Every other definition with documented options, spelled in any documented way and with any parameters, bounds, visibility and names of its own, is accepted by both derives.",
 ["programs"],"all subsets of options up to a size on every kind of type, field and variant; all token sequences up to a length and every single slip in longer ones",
 "Six unit tests look for one error message each; no test compiles an illegal definition.",
 [M+"lib.rs",M+"meta.rs",M+"de.rs",M+"ser.rs",M+"case.rs"],
 [m("ContainerMeta, FieldMeta, VariantMeta validation",M+"lib.rs"),m("attribute parser state machines",M+"meta.rs"),m("mode and position checks",M+"de.rs from_xml, named_field; "+M+"ser.rs to_xml")],
 observe=["derive(ToXml)","derive(FromXml)"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
