CLAIMS = {
 "C01": ("abstract interpretation of parser and renderers against one grammar of the text of a node", "The parser is interpreted on a symbolic input; the texts it stores must be pieces of the input that lie end to end, up to the end of the input; the renderers must emit exactly those texts in that order."),
 "C04": ("abstract interpretation of the reader of quoted text as a token table, compared with the writers' escape tables", "The renderers are interpreted for what they copy and escape between quotes, the reader on a symbolic quoted input for the tokens it reads; every byte as written must be read back as that byte whatever follows, and the closing quote must end the text."),
 "C06": ("abstract interpretation of the parser with ranking facts for every loop", "Every loop reached from parsing must move a quantity towards a bound on each way round; nested values must be parsed at later positions; no other recursion."),
 "C07": ("abstract interpretation of the parser with index, slice and arithmetic facts", "No assertion, slice, unwrap or unreachable arm may fail on any path of the parser over a symbolic input; growing recursion is reported (one known finding)."),
 "C08": ("abstract interpretation of the parser with span facts", "Every error that leaves the parser must carry a span within the input; formatting must emit kind, start and end of exactly that span."),
 "C02": ("abstract interpretation of both renderers with an output typestate", "Display and write_to are interpreted on generic nodes; everything they emit is followed by an automaton of the text of a document, so that both are shown to write the same text; escape tables are compared."),
 "C03": ("abstract interpretation with an output typestate and failing writes", "Both renderers are interpreted with every write failing or not; stored text must be written complete and unconverted, and every failure must be returned at once."),
 "C09": ("abstract interpretation of the compiler's MIR over a symbolic document tree", "Every typed accessor and dynamic view is interpreted once on a value of unknown kind; each outcome is compared with the kind of the value it was asked about."),
 "C10": ("abstract interpretation of the compiler's MIR over a symbolic document tree", "All sixty numeric setters, pushers and inserters and all numeric getters are interpreted; the stored text is tracked as the decimal form of the argument and its recorded type compared with the argument type."),
 "C13": ("abstract interpretation of iterator methods with index facts", "Every iterator method is interpreted on a symbolic remaining range; yielded element and remaining range are compared with the method's contract."),
 "C14": ("abstract interpretation with a heap frame rule", "All public mutators are interpreted on a symbolic tree; every cell written by an outcome must belong to the addressed node, its removed descendants or new nodes."),
 "C15": ("abstract interpretation with link obligations on every heap change", "All public mutators are interpreted on a symbolic well-formed tree; each created, moved or removed link is checked against the tree invariant."),
 "C16": ("abstract interpretation with key-equality facts", "Insert, lookup and removal by key are interpreted on a symbolic item list; outcomes are compared with the list of keys before and after."),
 "C17": ("abstract interpretation with index and key-equality facts", "Lookups, removals and length queries are interpreted on a symbolic item list of unknown length; each outcome is compared with presence of the entry."),
 "C25": ("abstract interpretation of all setters over a symbolic document tree", "All value setters, pushers and inserters are interpreted; the stored node is compared with the argument and the operation's kind and style."),
 "C24": ("abstract interpretation of all inserters and pushers with column arithmetic", "Every insert, push and make operation is interpreted on a symbolic container; the stored prefixes and recorded columns are compared, as texts of symbolic length, with the layout rules."),
 "C23": ("abstract interpretation of the string store with hash and stored-text facts", "Storing and looking up a text are interpreted on an arbitrary store: the id handed out must lead to exactly the stored bytes, an existing entry may be reused only when it holds an equal text, and no stored entry may be removed or replaced."),
 "C11": ("abstract interpretation of the Deserializer and access implementations with an event automaton", "Every request is interpreted on a value of every kind with an unknown receiver; the receiver must be asked exactly once, in the right form, with the value's own content; a request that comes back to itself for the same value is a violation; every step of an access must pair a key with its value."),
 "C12": ("abstract interpretation of the Serialize implementations with an event automaton", "Serialize of every view is interpreted with an unknown serializer whose calls may all fail; each call must be the form of the value's kind with its own content, every entry once and in order, and every error must be the result."),
 "C18": ("call-graph effect analysis over the compiler's MIR", "Every function reachable from the public API is searched for sources of nondeterminism and shared mutable state; calls into dependencies are judged by an allow list."),
 "C19": ("field-by-field clone analysis over MIR and types", "Every Clone implementation reachable from Document is shown to copy every field by value, with no shared ownership in any reachable type."),
 "C20": ("syntax and MIR queries over the derived snapshot code", "The derived Serialize and Deserialize implementations are compared field by field; attributes that skip, rename or default a field on one side are violations."),
 "C21": ("MIR comparison between feature configurations", "Every function of the core configuration is compared, after normalisation, with the same function under each feature set."),
 "C22": ("unsafe-code query and compile-fail witnesses", "No unsafe code, no unchecked operations, and 34 programs that keep a view across an edit that the borrow checker must reject, each with a compiling twin."),
}
NA = {
 "C30": "Whether an edited document parses back to the same values depends on the re-parse of text that callers supply at run time (keys, prefixes, separators); relating the two requires running the parser on that text.",
 "C31": "The accuracy of decimal and floating point text conversions is decided inside lexical-core, itoa and ryu, numeric algorithms of dependencies; no static argument over this crate reaches it.",
 "C32": "Agreement with the YAML specification needs the specification's grammar as an oracle over arbitrary inputs; the crate implements a deliberate subset and documents no boundary to check against.",
 "C33": "Running time as a function of input size depends on runtime quantities (lengths of whitespace runs, depth) for which no sound static bound is in reach here.",
}
