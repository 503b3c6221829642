"""Single source for properties.jsonl (run: python tools/gen_properties.py)."""
import json, pathlib
L = "lazy_type_hint/"
T = L + "data_type_tree/"
G = T + "generic_type/"
S = T + "simple_data_type_tree/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The generated type admits the value it was generated from",
  "For every supported value and every parsing configuration, the value is an instance of the type that the generated module binds to the requested class name, at every nesting level: every inspected element, key, value, tuple position, required key, class object and array element type. "
  "Elements beyond the configured inspection limit are exempt, and an int is accepted where a float is declared.",
  ["inputs", "configurations"],
  "every acyclic value built from the supported structures (nested containers, sets, mappings, dicts with any hashable keys, iterators, files, classes, instances, arrays, series, callables) under every combination of strategies",
  "The unit tests compare text for about a hundred fixed values; deduplication, similarity merging and int/float promotion interact between siblings, so unsoundness shows only for particular combinations of nested values, which must be enumerated. The one combinatorial test in the repository cannot run without network (needs poetry + mypy).",
  [T + "data_type_tree.py", G + "set_and_sequence_operations.py", G + "mapping_data_type_tree.py", G + "dict_data_type_tree.py", G + "tuple_data_type_tree.py", G + "set_data_type_tree.py", S + "instance_data_type_tree.py", S + "type_data_type_tree.py", S + "numpy_data_type_tree.py"],
  [("structural hash/equality that decides which nodes share a declaration", T + "data_type_tree.py"), ("union formation with int/float promotion", G + "generic_data_type_tree.py"), ("merging of similar TypedDicts", G + "set_and_sequence_operations.py"), ("dispatch from value to node class", T + "factory.py")],
  ["LazyTypeHint().from_data(...).to_string()"])

p("C02", "Generated modules are closed, importable and unambiguous",
  "For every supported value, every configuration and every valid class name that does not shadow a builtin or typing name, the generated text is valid Python that executes on its own in an empty namespace and binds the class name. "
  "Every name it mentions is imported or declared by it, except quoted references to user-defined classes, and no name is declared twice with different meanings.",
  ["inputs", "configurations"],
  "every supported value (including any string, None, number, tuple or object as mapping key) x configuration x class name",
  "Tests feed a few dozen identifier-like keys; name clashes, missing imports and unescaped text appear only for particular key spellings, key types and sibling combinations.",
  [T + "data_type_tree.py", L + "utils/import_manager.py", G + "dict_data_type_tree.py", G + "mapping_data_type_tree.py", L + "utils/utils.py"],
  [("collection of required imports while rendering", L + "utils/import_manager.py"), ("derivation of alias names from keys and types", G + "mapping_data_type_tree.py"), ("class versus functional TypedDict syntax", G + "dict_data_type_tree.py"), ("emission of declarations in dependency order", T + "data_type_tree.py")],
  ["LazyTypeHint().from_data(...).to_string()", "to_file()"])

p("C03", "The generated type claims nothing the value does not show",
  "Every alternative of every union, every element, key and value type, every field of a generated TypedDict and every optional marker is witnessed by some part of the value it describes, and fixed tuples have exactly as many positions as the tuple inspected. "
  "`Any` stands only for the content of an empty container or for an unannotated callable, and `object` only in the type of None.",
  ["inputs", "configurations"],
  "every supported value (containers nested to the bound, all sibling combinations) x every configuration",
  "Tests assert exact text for selected values; over-wide types produced by a particular sibling order, duplicate handling or merge are not among them.",
  [G + "generic_data_type_tree.py", G + "set_and_sequence_operations.py", G + "dict_data_type_tree.py", G + "tuple_data_type_tree.py", G + "mapping_data_type_tree.py"],
  [("union formation", G + "generic_data_type_tree.py"), ("required/not-required bookkeeping", G + "dict_data_type_tree.py"), ("element deduplication", G + "set_and_sequence_operations.py")],
  ["LazyTypeHint().from_data(...).to_string()"])

p("C04", "Each strategy changes exactly the aspect it names, at every depth",
  "Changing one strategy changes the resulting type only in the aspect that strategy names, uniformly at every nesting level: list versus Sequence for lists, fixed positions versus homogeneous any-size for tuples, TypedDict versus Mapping versus dict for string-keyed dicts, read-only markers on every TypedDict field. "
  "The alias-depth setting changes only how the same type is spread over named declarations: a nested list, tuple, set, mapping or iterator is named exactly when its nesting height exceeds the setting, while the top-level class, TypedDicts and callables are always named.",
  ["inputs", "configurations"],
  "every supported value x every pair of configurations that differ in one strategy",
  "The tests check each strategy on a handful of values at one nesting level; that the option reaches every nested node (including merged and deduplicated ones) is a statement over all shapes.",
  [L + "strategies.py", G + "list_data_type_tree.py", G + "tuple_data_type_tree.py", G + "mapping_data_type_tree.py", G + "dict_data_type_tree.py", T + "data_type_tree.py"],
  [("strategies object passed down to every child", T + "factory.py"), ("alias permission rule by height", T + "data_type_tree.py"), ("container choice per node", G + "list_data_type_tree.py")],
  ["LazyTypeHint(strategies).from_data(...).to_string()"])

p("C05", "Generation is deterministic",
  "The generated text depends only on the value (as iterated) and the configuration: the same input yields byte-identical text in every process, for every hash seed and memory layout, however many other values were processed before, and whether equal parts of the value are shared objects or separate copies.",
  ["inputs", "configurations", "histories"],
  "every value whose sets hold at most one element needing its own declaration x hash seeds x object-address orders x earlier calls in the process x sharing patterns",
  "Tests run each value once in one process; nondeterminism comes from hash seeds and object addresses that a single run cannot vary, yet stored stubs and the `validate` mode rely on textual equality between runs.",
  [G + "set_and_sequence_operations.py", T + "data_type_tree.py", L + "utils/ordered_set.py", L + "utils/import_manager.py"],
  [("children of sequences collected through hashed collections", G + "set_and_sequence_operations.py"), ("ordered emission", L + "utils/ordered_set.py"), ("sorted imports", L + "utils/import_manager.py")],
  ["to_string() in separate processes"])

p("C06", "Rendering a result is repeatable and independent of earlier renderings",
  "A generation result can be rendered any number of times, in any order, with or without imports, to text or to file, and each rendering gives the same text it would give as the first one; leaving imports out removes only the import block. "
  "Writing to a file stores exactly the full text, and a missing parent directory is an error with no effect unless its creation was requested.",
  ["histories", "inputs"],
  "every sequence (to a bounded depth) of rendering calls on one result, for representative values, over existing, missing and nested missing directories and pre-existing target files",
  "Tests render each result once; state kept between renderings only shows in sequences of calls.",
  [L + "generators/lazy_type_hint.py", T + "data_type_tree.py", L + "utils/utils.py"],
  [("per-instance caching of rendered strings", L + "utils/utils.py"), ("file writing and directory creation", L + "generators/lazy_type_hint.py")],
  ["Tree.to_string", "Tree.to_file"])

p("C07", "Generation leaves the given data untouched and hands it back unchanged",
  "Generating type hints never changes the given value: its contents, types, key order, object identities, file positions and remaining iterator items are the same afterwards as before. "
  "The live generator returns the very object it was given, and when reading YAML it returns exactly what the caller's loader yields for the file.",
  ["inputs", "configurations"],
  "every supported value (including values with shared parts, mapping proxies, frames, series, arrays, open files) x configuration, both generators",
  "Tests check the live return value for one YAML document that is really a plain string; mutation through merging, limits or comment keys depends on the shape of the value.",
  [G + "dict_data_type_tree.py", G + "mapping_proxy_data_type_tree.py", G + "set_and_sequence_operations.py", L + "generators/lazy_type_hint_live.py", L + "generators/lazy_type_hint_abc.py"],
  [("metadata copies taken before merging", G + "dict_data_type_tree.py"), ("return of the input object", L + "generators/lazy_type_hint_live.py")],
  ["the data object before and after", "return value of the live generator"])

p("C08", "YAML comments never change the generated types",
  "For every YAML document the loader accepts and every comment placement setting, the types generated from the file equal those generated from the loaded data: comments can only add documentation text. "
  "No helper key introduced for documentation ever appears in the generated types.",
  ["inputs", "configurations"],
  "every YAML document over a small line grammar (nested maps, lists, lists of maps, flow collections, block scalars, quoted keys and values containing # or :, comments above/below/side at right and wrong indentation) x comment settings x strategies",
  "The tests use about ten documents; the comment extractor is a line-based heuristic, so the interaction of comments with indentation, lists, quotes and block scalars is a property of all documents.",
  [L + "file_modifiers/yaml_file_modifier.py", L + "generators/lazy_type_hint_abc.py", G + "mapping_data_type_tree.py", G + "dict_data_type_tree.py"],
  [("rewriting comments as hidden keys", L + "file_modifiers/yaml_file_modifier.py"), ("fallback to the original data", L + "generators/lazy_type_hint_abc.py"), ("dropping hidden keys", G + "mapping_data_type_tree.py")],
  ["LazyTypeHint().from_yaml_file(...).to_string()"])

p("C09", "YAML comments document exactly the key they belong to",
  "In block-style YAML with space indentation, a comment on a key's own line, or a block of comment lines directly above or below it at the key's own column, appears as the documentation of that key and of no other, when that position is among the requested ones; positions not requested contribute nothing. "
  "The words of the comment are preserved in order. Keys are Python identifiers, plain or quoted, written on one line; where several dictionaries share one declaration a key carries the comment of one of them.",
  ["inputs", "configurations"],
  "every small block-style document with distinct comments at every combination of positions (side, above, below, multi-line) x requested positions and their order",
  "Tests assert a few documents; attribution depends on neighbours (previous key's comment below versus next key's comment above), nesting and list items.",
  [L + "file_modifiers/yaml_file_modifier.py", G + "dict_data_type_tree.py"],
  [("extraction of comments per key line", L + "file_modifiers/yaml_file_modifier.py"), ("hidden key to docstring association", G + "dict_data_type_tree.py")],
  ["docstrings below TypedDict fields in the generated text"])

p("C10", "YAML calls are isolated: no source change, no leftovers, no cross-talk",
  "Generating from a YAML file never modifies or locks the source file or its directory, leaves no temporary file behind whether it succeeds or fails, and does not disturb files of the same name elsewhere. "
  "Concurrent calls, including on different files with the same base name, give each caller the result it would get alone.",
  ["schedules", "fault_sequences"],
  "every interleaving of file operations and loader calls of two or three concurrent calls (same or different files, same base name), and every point at which the loader or a file operation fails",
  "Tests run calls one at a time with loaders that never fail; races need a chosen interleaving of file operations.",
  [L + "file_modifiers/yaml_file_modifier.py", L + "generators/lazy_type_hint_abc.py"],
  [("temporary YAML copy", L + "file_modifiers/yaml_file_modifier.py"), ("fallback on failure", L + "generators/lazy_type_hint_abc.py")],
  ["from_yaml_file results", "file system before/after"])

p("C11", "The live interface always lists exactly the live classes",
  "After any sequence of successful live generations and resets, from any mix of instances, the generated interface stub is valid Python that declares, for exactly the class names generated since the last reset, an import of that class and a typed overload of each generation method accepting that literal class name and returning that class, with the untyped public methods still present. "
  "The module stored for each listed class holds the type hints of its latest generation, and a reset removes everything and lets generation start afresh.",
  ["histories"],
  "every sequence to a bounded depth of: generate class A/B/C with different data, from data or YAML, overwrite or validate, reset, create a new instance, continue with an old instance",
  "Tests exercise at most two consecutive calls; the stub is edited textually in several steps and cached per instance, so correctness is a statement about histories.",
  [L + "generators/lazy_type_hint_live.py", L + "file_modifiers/py_file_modifier.py"],
  [("textual stub editing", L + "generators/lazy_type_hint_live.py"), ("search/replace helpers", L + "file_modifiers/py_file_modifier.py")],
  ["generated stub file", "build directory"],
  [("stub text", "public interface with overloads for each class", L + "generators/lazy_type_hint_live.py"), ("class modules", "one module per class", L + "generators/lazy_type_hint_live.py")])

p("C12", "Validate mode accepts exactly the data whose type hints match",
  "In validate mode a generation for an existing class name succeeds if and only if the type hints of the given data under the current configuration equal the stored ones up to documentation text; on rejection an error is raised and nothing stored changes. "
  "In overwrite mode it always succeeds and the stored hints become those of the new data, and a class name not yet existing is accepted in both modes.",
  ["histories", "inputs", "configurations"],
  "every pair of values from an exhaustively built pool (including values differing only in documentation, in one nested type, in optional keys or in configuration) stored then validated, in the same or another process",
  "Tests try two pairs of lists; equality up to documentation depends on how documentation is laid out in the stored text.",
  [L + "generators/lazy_type_hint_live.py", L + "utils/docstring_formatter.py"],
  [("comparison after documentation removal", L + "generators/lazy_type_hint_live.py")],
  ["LazyTypeHintLiveError raised or not", "stored class module"])

p("C13", "A live generation interrupted at any point is recoverable",
  "If the process dies or a file operation fails at any point during a live generation or a reset, every class generated earlier keeps its complete hints in the stub and on disk (unless being reset), no stored file is left truncated, and a later generation from a fresh instance works. "
  "After that later generation the stub and class modules are as if the interrupted operation had either completed or never started.",
  ["crash_points", "fault_sequences"],
  "every prefix of the sequence of file-system effects (including partially written file contents) of each operation in short histories, followed by every recovery operation",
  "No test injects a failure; the operation writes several files in several steps, so partial states exist only at crash points.",
  [L + "generators/lazy_type_hint_live.py"],
  [("order and atomicity of class module, stub and directory updates", L + "generators/lazy_type_hint_live.py")],
  ["stub file and build directory after a simulated crash"])

p("C14", "Concurrent live generations do not lose or corrupt classes",
  "When threads of one process generate live type hints concurrently, through the same or separate instances, every class whose generation returned is fully present in the stub and on disk afterwards, and the stub is valid Python at every moment another process could read it.",
  ["schedules"],
  "every interleaving, up to a preemption bound, of the file-system and shared-state steps of two or three concurrent generations (same or different class names, same or separate instances)",
  "Tests are single-threaded; the update is a read-modify-write of a shared file.",
  [L + "generators/lazy_type_hint_live.py", L + "file_modifiers/py_file_modifier.py"],
  [("read-modify-write of the stub", L + "generators/lazy_type_hint_live.py")],
  ["stub file and build directory after all threads finish"])

p("C15", "Data frame hints cover exactly the frame's columns with the right types",
  "For a data frame whose top-level column labels are strings, booleans or integers (columns being either all simple labels or all tuples of at least two levels, and no two labels equal but of different types), the generated class offers one typed access per distinct label, whose declared result type admits what that access returns (a series with the right element types, or the nested frame class), and under full hinting no other scalar label is accepted while under autocomplete-only any string is. "
  "When column hinting is disabled, or the labels are of other kinds, the frame is described as a plain data frame.",
  ["inputs", "configurations"],
  "every small frame (0-3 columns, label kinds, dtypes, multi-level labels, repeated prefixes, frames nested in containers next to other frames) x pandas strategy x other strategies",
  "Tests compare the text for a few frames; frames with equal labels but different column types, nested levels or more columns than a repr shows are not covered.",
  [G + "pandas_data_frame_data_type_tree.py", G + "pandas_series_data_type_tree.py"],
  [("overload per column", G + "pandas_data_frame_data_type_tree.py"), ("frame equality used for sharing declarations", G + "pandas_data_frame_data_type_tree.py")],
  ["overloads of __getitem__ in the generated class"])

p("C16", "Callable hints preserve the callable's signature",
  "For every named function, static method or bound method, the generated protocol's call signature has the same parameters in the same order with the same names, kinds, annotations and optionality as the callable, and the same return annotation; without a return annotation it promises None only if the callable can only return None. "
  "Lambdas become callables of the same number of parameters, and callables that cannot be inspected become the general callable type rather than an error.",
  ["inputs", "programs"],
  "every function signature up to three parameters over all kinds, annotation forms and default kinds, with each body shape (return forms, generator, async), wrapped as function, method, static/class method, lambda or builtin",
  "Tests cover a dozen signatures of source-visible functions; the space of kinds x annotations x defaults x wrappers is not sampled.",
  [S + "function_data_type_tree.py", L + "utils/import_manager.py"],
  [("protocol from the inspected signature", S + "function_data_type_tree.py"), ("imports inferred from the signature", L + "utils/import_manager.py"), ("return inference from source", S + "function_data_type_tree.py")],
  ["protocol class in the generated text"])

p("C17", "Invalid configurations and class names are refused, valid ones never",
  "A parsing configuration is accepted if and only if every named choice is one of the documented options, the alias-depth setting is at least 0, the similarity threshold is within 1..100 and the inspection limit is unset or at least 1. "
  "Generation under a class name succeeds if and only if the name can be used as a Python class name; a refused name raises the library's error and writes nothing. "
  "Reading comments from a YAML file is accepted if and only if its suffix is .yaml or .yml and the comment positions do not combine above and below.",
  ["inputs", "configurations"],
  "every configuration over the documented values plus boundary and invalid values for each field and all pairs of fields; every class name up to three characters over a representative alphabet, plus all keywords",
  "Tests try a few invalid values per field; the accepted set is a statement about all values and names.",
  [L + "strategies.py", L + "utils/utils.py", L + "generators/lazy_type_hint_abc.py", L + "generators/lazy_type_hint_live.py"],
  [("post-init validation", L + "strategies.py"), ("identifier check", L + "utils/utils.py")],
  ["exceptions raised by the constructor and by from_data/from_yaml_file"])

p("C18", "Similar dictionaries are merged exactly at the configured similarity",
  "The string-keyed dictionaries found together in one list, tuple, set-like or iterator are merged into one TypedDict if the share of their keys common to all of them is at least the configured percentage and no key has incompatible value types among them; otherwise each distinct one keeps its own declaration. "
  "In a merged TypedDict every key seen in any of them appears once, and a key is required exactly if all of them have it.",
  ["inputs", "configurations"],
  "every collection of up to four dictionaries over up to four keys and a few value types, in every order, at every threshold 1..100, in each container kind",
  "Tests check selected percentages and pairs; order dependence and three-way merges need all combinations.",
  [G + "set_and_sequence_operations.py", G + "dict_data_type_tree.py"],
  [("similarity computation", G + "dict_data_type_tree.py"), ("merge of metadata and children", G + "dict_data_type_tree.py")],
  ["TypedDicts in the generated text"])

p("C19", "Documentation text is carried over safely and completely",
  "When a documentation key is configured and a string-keyed dictionary holds a string under it, the generated TypedDict carries that text as its documentation: all words in order, whatever quotes, backslashes, line breaks or length it has, without altering any declared type. "
  "Documentation never appears for dictionaries lacking that key.",
  ["inputs", "configurations"],
  "every documentation string up to a small length over an alphabet of words, quotes, backslashes, newlines, spaces and dots, plus every length around the wrapping width, for class and functional TypedDict forms at several depths",
  "Tests use plain prose of a few lengths; escaping and wrapping hold or fail per string.",
  [L + "utils/docstring_formatter.py", G + "dict_data_type_tree.py"],
  [("docstring formatting and wrapping", L + "utils/docstring_formatter.py"), ("class docstring insertion", G + "dict_data_type_tree.py")],
  ["docstrings in the generated text"])

p("C20", "The inspection limit looks at exactly the first elements",
  "With an inspection limit of n, the types generated equal those generated, without a limit, from the same value in which every list, tuple, set, iterator, series and mapping proxy, and every dictionary unless the dict strategy is TypedDict, keeps only its first n items as iterated. "
  "Without a limit every element is reflected; no more than n items are drawn from an iterator.",
  ["inputs", "configurations"],
  "every value x limits 1..5, none, and lengths around the default limit with a distinguishable element at each position",
  "Tests use one long homogeneous list; an off-by-one or a limit applied at the wrong level shows only for particular positions.",
  [G + "set_and_sequence_operations.py", G + "dict_data_type_tree.py", G + "mapping_proxy_data_type_tree.py", L + "strategies.py"],
  [("early stop while instantiating children", G + "set_and_sequence_operations.py"), ("slicing of mappings", G + "dict_data_type_tree.py")],
  ["LazyTypeHint(strategies).from_data(...).to_string()"])

p("C21", "A type checker understands each generated module as what it says when executed",
  "For every supported value and every configuration, a static type checker accepts the generated module without errors, apart from quoted mentions of user-defined classes, and understands the class name, and each column access of a data frame class, as the same type that the executed module binds: "
  "same containers, fields, required and read-only markers, unions, positions and element types.",
  ["inputs", "configurations"],
  "every module text reachable from the values of the bounded universes under the listed configurations",
  "Tests compare text with expected text and never ask a type checker; overloads, markers, aliases and names mean something only to it, and differently for each combination of values.",
  [L + "data_type_tree", L + "utils/import_manager.py", G + "pandas_data_frame_data_type_tree.py"],
  [("module text", L + "generators/lazy_type_hint.py"), ("data frame class templates", G + "pandas_data_frame_data_type_tree.py"), ("TypedDict and alias templates", G + "dict_data_type_tree.py"), ("callable templates", L + "data_type_tree/simple_data_type_tree/function_data_type_tree.py")],
  ["mypy on the generated module", "execution of the generated module"])

p("C22", "Live calls are typed as the generated classes",
  "In every state of the stored interface, a type checker reads a call of either generation method of the live generator with the name of a live class as returning exactly the type generated last for that class, and a call with any other name, known or not, as returning the type of the object given or loaded. "
  "The interface and the stored modules have no type errors of their own, and creating and resetting stay typed.",
  ["histories", "inputs", "configurations"],
  "every reachable state of the stored files for a few class names and values, each kind of value and each listed class name as a live class, with the client calls of both methods for all names",
  "Tests compare fragments of the stub with text; whether overload order, imports and class names add up for a type checker depends on the state reached.",
  [L + "generators/lazy_type_hint_live.py", L + "file_modifiers/py_file_modifier.py"],
  [("overloads of the stub", L + "generators/lazy_type_hint_live.py"), ("imports of the stub", L + "file_modifiers/py_file_modifier.py"), ("stored modules", L + "generators/lazy_type_hint_live.py")],
  ["mypy on a client of LazyTypeHintLive"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
