#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None,
                  **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}})

PARSE="src/yaml/parsing.rs"; RAW="src/yaml/raw.rs"; DATA="src/yaml/data.rs"; DOC="src/yaml/document.rs"
VM="src/yaml/value_mut.rs"; V="src/yaml/value.rs"
MM="src/yaml/mapping/mapping_mut.rs"; M="src/yaml/mapping/mapping.rs"; MI="src/yaml/mapping/iter.rs"
SM="src/yaml/sequence/sequence_mut.rs"; S="src/yaml/sequence/sequence.rs"; SI="src/yaml/sequence/iter.rs"
DE="src/yaml/serde/de.rs"; SER="src/yaml/serde/ser.rs"; NUM="src/yaml/number.rs"; ANY="src/yaml/any.rs"; ANYM="src/yaml/any_mut.rs"

p("C01","Unmodified documents are written back byte for byte",
  "For every byte string that parsing accepts, writing the resulting unmodified document yields exactly the input: every byte of every comment, indentation, quote, separator, directive, block scalar and trailing blank is emitted exactly once and in its original order. No byte that was not in the input is emitted.",
  ["inputs"],"all byte strings accepted by the parser",
  "The suite compares output for a few dozen documents; loss or duplication of layout needs an unusual combination (directives, blanks before separators, a block scalar ending at end of input) that no sample covers.",
  [PARSE,RAW,DOC,DATA],
  [("each construct captures the bytes between the previous construct and itself as a prefix",PARSE+": value, ws, inline_sequence, inline_mapping, sequence, mapping_or_nul, block"),
   ("the writer emits prefix, body and separators of each node in order",RAW+": Raw::write_to and the per-kind write_to"),
   ("document prefix, root and suffix",DOC+": Document::write_to")],
  ["yaml::from_slice followed by Document::write_to"],
  [("input cursor","everything before it has been attributed to some node","Parser.n")])
p("C02","Display and write_to produce the same text",
  "For every document, whether freshly parsed or edited in any way, the text produced by its Display implementation equals the bytes produced by writing it out, as long as its content is valid UTF-8. This includes documents containing empty values, empty containers and every string style.",
  ["inputs","histories"],"all documents reachable by parsing and any sequence of edits",
  "The two renderers are separate hand-written code; tests compare them only under a cfg that the normal run leaves off and only for the sampled documents.",
  [RAW,DOC],[("sibling renderers per node kind",RAW+": display / write_to pairs"),("document-level pair",DOC+": Document::display, Document::write_to")],
  ["Document::to_string","Document::write_to"])
p("C03","Writing is byte-transparent and reports every output error",
  "Writing a document passes stored text to the output verbatim, including bytes that are not valid UTF-8, and never substitutes or drops any of it. If any write to the output fails, the write operation returns that error instead of success, and a formatter error during display is likewise returned.",
  ["inputs","fault_sequences"],"all documents including non-UTF-8 content; every write call may fail",
  "Tests write to a Vec, which never fails, and use valid UTF-8 only.",
  [RAW,DOC],[("raw write_all calls for stored text, `?` on every write",RAW+": write_to family"),("",DOC+": Document::write_to")],
  ["Document::write_to with a failing writer or non-UTF-8 content"])
p("C04","Quoted strings are read back as the string that was written",
  "For every string, writing it in single-quoted or double-quoted style and parsing the result yields exactly that string. This holds for every character the writer escapes and for every character it leaves as it is.",
  ["inputs"],"all strings, both quoted styles, both renderers",
  "Tests cover a handful of escapes; the agreement is between three independent tables (two writers, one reader) over all characters.",
  [RAW,PARSE],[("escape tables of the writers",RAW+": escape_single_quoted, escape_double_quoted (display and write_to)"),("unescape table of the reader",PARSE+": single_quoted*, double_quoted*, unescape, unescape_unicode")],
  ["ValueMut::set_string_with then to_string then from_slice then as_str"])
p("C05","The automatic string style never changes what a string means",
  "Whenever the library picks the style for a string by itself and leaves it unquoted, reading that text back as a value gives a string with the same content. A string that would read back as a null, boolean, number, key, container, comment, quoted or block value, or that would lose leading characters, is therefore quoted, both in block context and inside brackets or braces.",
  ["inputs"],"all strings given to set, push or insert without an explicit style",
  "Tests try a few words; the property ranges over all strings and needs the detector and the parser's dispatch to agree on every lead character, keyword and embedded delimiter.",
  [RAW,PARSE],[("style detection",RAW+": RawStringKind::detect, new_string"),("value dispatch",PARSE+": Parser::value, number, key_or_eol, ws_nl")],
  ["ValueMut::set_string, SequenceMut::push_string, MappingMut::insert_str then re-parse"])
p("C06","Parsing terminates on every input",
  "For every byte string, parsing returns after finitely many steps. No loop of the parser can go round without consuming input, end of input ends every loop, and every nested value is parsed at a later position than the value enclosing it.",
  ["inputs"],"all byte strings, in particular truncated ones",
  "A hang needs a truncated or malformed construct; tests only parse well-formed documents.",
  [PARSE],[("loops guarded by the end-of-input sentinel, cursor bumping",PARSE+": every loop; peek/bump/find/find2"),("recursion through the value parser",PARSE+": Parser::value")],
  ["yaml::from_slice"])
p("C07","Parsing never panics or aborts",
  "For every byte string, parsing returns a document or an error: it never panics through arithmetic overflow, out-of-range indexing or slicing, a failed unwrap or an unreachable arm, and never aborts the process. This also holds for input that is truncated, not UTF-8, or nested deeply.",
  ["inputs"],"all byte strings",
  "Panics need malformed or extreme inputs; tests parse well-formed ones.",
  [PARSE,DATA,RAW],[("saturating/wrapping arithmetic, `get` instead of indexing",PARSE),("panicking lookups keyed by ids just created",DATA)],
  ["yaml::from_slice"])
p("C08","Parse errors carry a valid span",
  "Whenever parsing fails, the reported span starts no later than it ends and lies within the input. Formatting an error shows its kind and exactly that span.",
  ["inputs"],"all rejected byte strings",
  "Tests do not check spans; the ordering depends on cursor history on each failing path.",
  [PARSE,"src/yaml/error.rs"],[("Error::new at each failing path",PARSE),("span accessor and Display","src/yaml/error.rs")],
  ["Error::span, Error::to_string"])
p("C09","Typed views agree with the kind of the value",
  "For every value, each typed accessor (string, bytes, bool, number, mapping, sequence; borrowed, owned and mutable) succeeds exactly when the value is of that kind and then views that very value. The dynamic views classify the same value the same way, and asking never changes the document.",
  ["inputs","histories"],"all values of all documents, all accessor variants",
  "There are some forty accessor siblings; tests exercise a few of them on matching kinds and almost never on a mismatch.",
  [V,VM,ANY,ANYM,"src/yaml/string.rs",NUM],[("match on the node kind per accessor",V+": as_*, into_*"),("",VM+": as_*_mut, into_*"),("",ANY),("",ANYM)],
  ["Value::as_*, Value::into_any, Value::as_any, ValueMut::as_*_mut, Any::*"])
p("C10","Typed number setters and getters are consistent",
  "Each numeric setter, pusher and inserter stores the decimal text of exactly the value it was given together with the type it was given, for all twelve numeric types. Each numeric getter, whether on a value or on its number view, parses the value's full text as exactly the type it names and yields nothing when that fails.",
  ["inputs"],"all values of all twelve numeric types, all three ways to write and both ways to read",
  "Sixty macro-generated siblings of which tests sample a few; a wrong type, buffer or hint in one of them is invisible elsewhere.",
  [VM,SM,MM,V,NUM,"src/yaml/mod.rs"],[("macro families",VM+": set_*; "+SM+": push_*; "+MM+": insert_*; "+V+" and "+NUM+": as_*"),("type hints","src/yaml/mod.rs: serde_hint")],
  ["set_*/push_*/insert_*/as_* and serde output"])
p("C11","Deserialization hands over the value's own data and terminates",
  "Deserializing from a document gives the visitor the datum stored in that value, in the form its kind and the requested type call for: the requested numeric type when the text fits it, the whole string, every element in order, and every key with its own value. A request that does not match the value ends in a result or an error and never in endless recursion.",
  ["inputs","programs"],"all documents and all requested Rust types",
  "Tests deserialize a few structs; there are some thirty entry points which may each dispatch to the wrong one or call each other forever.",
  [DE],[("Deserializer for Value",DE),("SequenceIter, MappingIter, BStrDeserializer",DE)],
  ["T::deserialize(doc.into_deserializer())"])
p("C12","Serialization writes every element in the form of its kind",
  "Serializing a value produces the serde form of its kind with its own content: numbers in their recorded type, strings whole, sequences with every element in order and the right length, mappings with every key paired with its own value in order. No element is skipped, and every serializer error is passed on.",
  ["inputs","programs"],"all documents and all serde serializers",
  "Tests do not serialize through a recording serializer; twelve numeric arms and the container loops are sampled at best.",
  [SER],[("Serialize for Value, Sequence, Mapping",SER)],["serde Serialize of Value, Mapping, Sequence"])
p("C13","Iterators visit every entry once, consistently from both ends",
  "Iterating a mapping or sequence yields every entry exactly once in document order, each with its own key and value, and stepping or skipping from the back mirrors doing so from the front. Reported lengths are exact, and front and back steps may be mixed freely.",
  ["inputs","histories"],"all containers and all interleavings of next, next_back, nth, nth_back, size_hint",
  "Tests iterate forward; the back-end methods are never exercised.",
  [MI,SI,M,S],[("delegation to the underlying slice iterator",MI+"; "+SI)],["mapping::Iter, sequence::Iter, IntoIterator impls"])
p("C14","An edit changes only the node it addresses",
  "Setting a value replaces only that value's content: its prefix, its place in its parent and every other node, with its text, prefix and identifier, stay as they were; only turning a value into a container may give that value itself a new prefix. Pushing, inserting and removing an entry changes only the addressed container's list of entries and the entry concerned, and read-only operations change nothing.",
  ["histories"],"all edit operations on all documents",
  "Tests compare a few edited documents; an accidental write to a sibling, to a shared prefix or to the document suffix shows only in particular shapes.",
  [VM,MM,SM,DATA,RAW],[("replace touches one slot",DATA+": replace, replace_with"),("edit entry points",VM+"; "+MM+"; "+SM)],
  ["the rest of the rendered document, Document::value(id) for other ids"])
p("C15","Node links stay consistent: no dangling, shared or leaked nodes",
  "After parsing and after every edit, every entry of a container refers to a live entry node of that container's kind, every entry refers to one live value, and each node records its actual container as parent. Removing or overwriting part of a document releases exactly the nodes below it, and identifiers of all other nodes stay valid.",
  ["inputs","histories"],"all documents and edit histories",
  "A dangling or wrongly typed link panics only when it is followed later; a leak or a wrong parent shows only through indentation of later insertions.",
  [DATA,PARSE,MM,SM,VM],[("insert, replace, drop, drop_kind",DATA),("parents set at creation",PARSE+": placeholder/insert call sites; "+MM+": inner_insert; "+SM+": inner_push")],
  ["Document::value(id) after edits; panics 'expected ... at'"])
p("C16","Mapping keys are unique on insert and matched exactly",
  "Inserting under a key that the mapping already has replaces that entry's value in place and adds nothing; inserting under a new key appends exactly one entry at the end with that key and value. All lookups, removals and inserts on mappings identify a key by its exact content, whatever its quoting in the source, and act on the first entry having it.",
  ["inputs","histories"],"all mappings, all keys, all insert/get/remove variants",
  "Sixteen insert variants and four lookup variants; tests try few keys and no duplicates or quoted forms.",
  [MM,M,PARSE],[("inner_insert lookup and append",MM+": inner_insert"),("lookups",MM+": get_mut, get_into_mut, remove; "+M+": get"),("key content",PARSE+": next_mapping_key, until_colon, key_or_eol")],
  ["MappingMut::insert*, get*, remove; Mapping::get"])
p("C17","Lookups and removals report exactly what is there",
  "Looking up an index or key that is absent yields nothing and removing it returns false and changes nothing, never a panic; when it is present the lookup yields that entry's own value and removal takes out exactly that entry and returns true. Length, emptiness, first, last, indexed access and clearing agree with the list of entries.",
  ["inputs","histories"],"all indices including length and usize::MAX, all keys, all containers",
  "Boundary indices and absent keys are hardly sampled and there are a dozen sibling operations.",
  [M,S,MM,SM],[("bounds handling",S+": get/first/last; "+SM+": get_mut/get_into_mut/remove/clear; "+MM+": get_mut/get_into_mut/remove/clear")],
  ["get, get_mut, get_into_mut, remove, clear, len, is_empty, first, last"])
p("C18","Results depend only on the input: no hidden state or ordering",
  "Parsing, editing, rendering and serializing are deterministic: equal inputs and equal edit sequences give equal results in every process and thread. Nothing depends on hash iteration order, addresses, time, environment or other mutable global state, and read-only access through a shared reference has no effect.",
  ["schedules","histories","configurations"],"all runs, threads and repetitions",
  "Tests run each case once in one process; a randomized hash order or a global cache shows only across runs.",
  [DATA,PARSE,RAW],[("content hash without random seed, hash map used only for lookup",DATA),("no statics or interior mutability","src")],
  ["repeated from_slice/to_string"])
p("C19","Cloned documents are independent",
  "A cloned document (or parser) is a deep copy: editing either one never changes the other, and the clone renders identically. No node or text is shared mutably between documents.",
  ["histories"],"all documents and edits after cloning",
  "No test clones a document and edits both.",
  [DOC,DATA,RAW,PARSE],[("derived Clone over owned data",DOC+"; "+DATA+"; "+RAW)],["Document::clone then edits"])
p("C20","Saved documents restore completely",
  "With the feature for saving edits enabled, a document that is serialized and then deserialized has every piece of its state restored: all text, layout, styles, hints, links, the root and the suffix. It therefore renders and behaves exactly like the original.",
  ["inputs","histories"],"all documents, all self-describing formats",
  "No test saves and restores a document; a single skipped or renamed field corrupts only documents using it.",
  [DOC,DATA,RAW,"src/yaml/mod.rs"],[("derived Serialize/Deserialize on every stored type",RAW+"; "+DATA+"; "+DOC)],["serde round trip of Document under serde-edits"])
p("C21","Optional features do not change core behaviour",
  "Turning the optional serialization features on or off, in any combination, leaves parsing, editing and rendering behaviour unchanged. Features only add functionality.",
  ["configurations"],"all feature sets that include the YAML support",
  "The suite runs under one feature set at a time and mostly under the default one.",
  ["src/lib.rs","src/yaml/mod.rs","src"],[("cfg-gated modules, attributes and hint module","src/yaml/mod.rs; cfg_attr throughout")],["any API under different --features"])
p("C22","Safe API: no undefined behaviour, exclusive edits, valid text",
  "The crate contains no unsafe code and text is handed out as a string slice only after its UTF-8 validity was checked. A mutable view borrows the document exclusively: no program that keeps another view, iterator or string of the document alive across an edit, or that outlives the document, compiles.",
  ["programs","inputs"],"all safe client programs",
  "Tests can only contain programs that compile; the claim is about those that must not.",
  ["src/lib.rs",V,VM,DOC,MM,SM],[("forbid unsafe, borrow signatures of views","src")],["compile errors of violating clients"])
p("C23","Stored text is immutable and addressed by its content",
  "Text once stored in a document never changes and is never removed while the document lives; equal texts share one identity and different texts have different identities. Every piece of text that a node refers to is present, so reading or rendering never hits missing text.",
  ["histories"],"all documents and edit histories",
  "Missing or altered text shows only when that node is rendered later.",
  [DATA],[("insert-only content-addressed store",DATA+": insert_str, str")],["rendering after arbitrary edits"])
p("C24","Appended entries keep the container's layout",
  "An entry appended to a non-empty block container starts on its own new line, indented to the container's column, and an entry appended to an empty container adds no line break of its own. With the automatic separator the value follows the key or dash after blank space, and with a custom separator exactly the given text is used.",
  ["inputs","histories"],"all push and insert variants at all nesting depths",
  "Tests show a few depths; all thirty variants must share the same layout rule.",
  [MM,SM,RAW],[("make_prefix, value prefix selection",MM+": inner_insert, make_prefix; "+SM+": inner_push, make_prefix")],["rendered text after push/insert"])
p("C25","Setters store exactly the requested kind, content and style",
  "Every non-numeric setter, pusher and inserter stores a value of the requested kind whose content is exactly what was given: the boolean, the null form, the string in the requested style, a fresh empty container where one is requested, and block text joined and terminated as the requested block style and chomping demand. Turning a value into a container keeps it when it already is one of that kind.",
  ["inputs","histories"],"all values, styles and block options through set, push and insert",
  "Tests sample a few combinations; each of the three families has its own copy of each constructor call.",
  [VM,MM,SM,RAW],[("constructors",RAW+": new_bool, new_string, new_string_with, new_block"),("entry points",VM+"; "+MM+"; "+SM)],["as_* and to_string after edit"])
p("C30","Arbitrarily edited documents re-parse to the edited tree",
  "After any sequence of edits, parsing the rendered text yields a tree equal to the edited one.",
  ["histories"],"all edit histories",
  "Needs arbitrary combinations of styles, nesting and separators chosen by the caller.",
  [RAW,VM,MM,SM],[("layout synthesis",RAW+": make_indent")],["to_string then from_slice"])
p("C31","Number text is numerically accurate",
  "The decimal text written for a floating point value parses back to the identical bits, and integer text is exact.",
  ["inputs"],"all floats and integers","Numerical accuracy over the whole value range.",
  [VM,NUM],[("ryu, itoa, lexical-core",VM)],["set_f64 then as_f64"])
p("C32","Accepted documents mean what the YAML specification says",
  "For every accepted input the tree equals the one prescribed by the YAML 1.2 specification.",
  ["inputs"],"all YAML documents","Needs a reference semantics of YAML and comparison of values at run time.",
  [PARSE],[("",PARSE)],["from_slice compared with a reference parser"])
p("C33","Parsing takes time linear in the input",
  "Parsing an input of length n takes time proportional to n.",
  ["inputs"],"all inputs","Timing and asymptotic cost.",
  [PARSE],[("indent_from rescans the current line",PARSE)],["wall time"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
