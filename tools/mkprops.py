#!/usr/bin/env python3
"""Writes properties.jsonl (source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Instances are immutable snapshots, whatever is done afterwards",
 "Once an instance (a value at a position of a data tree) has been obtained, nothing observable through it ever changes: its value, path, timestamp, its neighbours, and what moving from it to other nodes gives. This holds whatever other holders do afterwards with it or with instances derived from it (edits, merging, adding defaults, validation, evaluation, output), whether these operations succeed, fail or are interrupted. It also holds when a caller modifies the raw data it passed in or the raw data or XML it was given.",
 ["histories", "schedules", "fault_sequences"],
 "Every interleaving of operations of several clients holding instances of one data tree, with any operation failing or being interrupted at any point.",
 "Tests look at one or two instances right after one edit; a shared sub-value that is modified in place shows only when an older snapshot is looked at again after an unrelated operation or an interrupted one.",
 ["yangson/instance.py", "yangson/instvalue.py", "yangson/schemanode.py"],
 [("structural sharing with copy-on-write in edit methods", "yangson/instance.py InstanceNode.put_member/delete_item/merge, _copy"),
  ("zipper: siblings and before/after deques copied", "yangson/instance.py ObjectMember, ArrayEntry")],
 ["value", "raw_value()", "to_xml()", "path", "json_pointer()", "timestamp", "up()/top()/next()/previous()"],
 [("InstanceNode.value", "value shared between snapshots", "yangson/instance.py"),
  ("ArrayEntry.before/after", "neighbours of an entry", "yangson/instance.py")])

prop("C02", "Histories of edits and moves agree with a plain JSON tree",
 "Any history of moves and edits (selecting members and entries, siblings, next/previous/last entry, look-up by keys, going up or to the top, following instance identifiers and resource identifiers, putting, deleting, inserting, updating and merging values) gives at each step the node, value and path that the same steps give on a plain JSON tree. A step that is impossible there is refused with the documented exception and has no effect. For every node the path, the JSON pointer and the instance identifier reported lead back to that node.",
 ["histories", "schedules"],
 "Every interleaved history of moves and edits by several clients branching from common snapshots.",
 "Tests walk a few hand-written routes; wrong neighbours, indices or lost siblings appear only after particular combinations such as insert, next, delete, up.",
 ["yangson/instance.py", "yangson/instroute.py", "yangson/schemanode.py"],
 [("zipper navigation", "yangson/instance.py InstanceNode/ObjectMember/ArrayEntry"),
  ("route items", "yangson/instance.py MemberName, EntryKeys, EntryIndex, EntryValue"),
  ("identifier parsers", "yangson/instance.py InstanceIdParser, ResourceIdParser")],
 ["return values and exceptions of the navigation and editing methods", "path", "json_pointer()", "instance_route()"])

prop("C03", "Validation lets through exactly the states that satisfy the model",
 "Whatever sequence of edits produced a data tree, validating it succeeds if and only if the tree satisfies every applicable constraint of the data model (allowed and mandatory members, choices, when and must conditions, types, keys, uniqueness, element counts, references) for the requested scope and content type. A refusal names a node at which a constraint is really violated, with the corresponding exception class and error tag.",
 ["histories", "schedules", "inputs"],
 "Every history of edits by interleaved clients against a data model using the main YANG constraints, with validation after any step.",
 "Tests validate a handful of prepared documents; state left by earlier validations, defaults in conditions and cross-references after edits are not sampled.",
 ["yangson/schemanode.py", "yangson/schpattern.py", "yangson/constraint.py", "yangson/xpathast.py", "yangson/datatype.py"],
 [("schema patterns with derivatives", "yangson/schpattern.py"),
  ("must/when evaluation", "yangson/constraint.py, yangson/xpathast.py"),
  ("list and leaf-list checks", "yangson/schemanode.py SequenceNode, ListNode, LeafListNode")],
 ["validate()", "SchemaError/SemanticError/YangTypeError .instance and .tag"])

prop("C04", "Threads sharing a model and instances get the results they get alone",
 "When several threads use one data model and common instances at the same time, each operation (reading and parsing data, validation, adding defaults, editing, evaluation of expressions, output, schema queries) returns the same result or raises the same exception as when it runs alone. This is so for every interleaving, including the first uses of a freshly loaded model, and no interleaving leads to a deadlock.",
 ["schedules"],
 "Every interleaving, at source line granularity, of operations in two to four threads.",
 "The tests are single-threaded; data written into shared schema objects is only visible to a thread pre-empted in between.",
 ["yangson/schemanode.py", "yangson/schpattern.py", "yangson/datatype.py", "yangson/instance.py", "yangson/datamodel.py"],
 [("conditions evaluated on per-validation copies of patterns", "yangson/schpattern.py"),
  ("error information of types kept per thread", "yangson/datatype.py"),
  ("lazily built patterns published complete", "yangson/schemanode.py")],
 ["return values and exceptions of public operations"],
 [("schema pattern of an internal node", "built at the first use, then shared", "yangson/schemanode.py"),
  ("error tag and message of a type", "set by a failed check", "yangson/datatype.py")])

prop("C05", "Results depend on the data only, not on what was done before",
 "The result of any query (validation verdict with its error, added defaults, output, evaluation of identifiers and expressions, schema digest and tree) is determined by the data model and the contents of the data it is applied to. It does not depend on the sequence of edits that led to these contents, on the queries and failed operations executed earlier, or on their order.",
 ["histories"],
 "Every pair of histories ending in equal contents, with arbitrary successful and failing queries in between.",
 "Tests share a module-wide model but never compare a query after a long history with the same query on a fresh model.",
 ["yangson/schemanode.py", "yangson/schpattern.py", "yangson/datatype.py", "yangson/schemadata.py", "yangson/xpathast.py"],
 [("queries do not write to the schema", "yangson/schemanode.py, yangson/schemadata.py"),
  ("error information reset by each check", "yangson/datatype.py")],
 ["results of public queries on a used and on a fresh model"])

prop("C06", "An interrupted operation does no harm and can be repeated",
 "If an operation on a data model or an instance is stopped at any point by an asynchronous exception (keyboard interrupt, lack of memory, exhausted recursion limit, cancellation, an exception from a caller's output filter), the exception reaches the caller and all instances and the model stay intact. Repeating the operation, and any other operation, then gives the result it would have given without the interruption.",
 ["crash_points", "histories"],
 "Every operation and every line of the library at which it may be stopped, on fresh and used models, with repeated interruptions.",
 "Tests never interrupt anything.",
 ["yangson/schemanode.py", "yangson/schpattern.py", "yangson/instance.py", "yangson/datatype.py", "yangson/datamodel.py"],
 [("no partially updated shared state", "yangson/schemanode.py _make_schema_patterns, _check_schema_pattern"),
  ("copy-on-write editing", "yangson/instance.py")],
 ["results of the repeated and of later operations"])

prop("C07", "Loading a model under I/O faults is all or nothing and can be retried",
 "When reading of the YANG library or of any module is disturbed (missing or unreadable file, I/O error, truncated contents, short or interrupted reads, too many open files, a module with unexpected contents), loading either raises an exception or yields a data model that behaves exactly as the one loaded without disturbance. A failed load influences neither models that exist nor later loads, and once the faults stop the same load succeeds.",
 ["fault_sequences", "crash_points"],
 "Every sequence of faults hitting any file operation of a load, with several search directories, followed by retries.",
 "Tests load from a healthy disk and cover a missing module only.",
 ["yangson/datamodel.py", "yangson/schemadata.py", "yangson/statement.py"],
 [("module search loop", "yangson/schemadata.py SchemaData._load_module"),
  ("parser rejecting incomplete text", "yangson/statement.py ModuleParser")],
 ["DataModel constructor and from_file", "schema_digest()", "ascii_tree()", "validation results"])

prop("C08", "The right revision of each module is selected from the search path",
 "For every module and submodule of the YANG library, the file used is the first one along the search path, trying in each directory the name with the revision before the name without it, that exists, may be read (permission) and whose name and revision agree with the library. Files that are missing, not permitted to be read, or contain another module or revision are passed over, and if none qualifies a module-not-found error naming the module and revision is raised. Imports are resolved to the revision requested, or to the latest one in the library if no revision is requested.",
 ["configurations", "fault_sequences"],
 "Every distribution of right, wrong, missing and unreadable files over several directories.",
 "Tests use one layout of module directories in which every file is right.",
 ["yangson/schemadata.py", "yangson/statement.py"],
 [("module search loop", "yangson/schemadata.py SchemaData._load_module"),
  ("content check", "yangson/statement.py ModuleParser.parse"),
  ("import resolution", "yangson/schemadata.py _process_imports, last_revision")],
 ["ModuleData.path, descriptions and types seen through the loaded model", "exceptions of the constructor"])

prop("C09", "Loading the same library always gives the same model",
 "Loading the same YANG library and modules gives an identical schema digest, schema tree and module set id in every process, whatever the hash seed of the interpreter and whatever was loaded before. If the entries of the YANG library are listed in another order, the module set id and the behaviour of the model (digest contents, validation, defaults) stay the same.",
 ["configurations", "histories"],
 "Every hash seed and every order of library entries and of loads in one process.",
 "A test run samples one hash seed and one order of entries.",
 ["yangson/schemadata.py", "yangson/datamodel.py", "yangson/schemanode.py"],
 [("deterministic module sequence", "yangson/schemadata.py _process_imports"),
  ("augments applied until nothing is left", "yangson/datamodel.py _build_schema")],
 ["schema_digest()", "ascii_tree()", "module_set_id()", "validation and defaults of sample data"])

prop("C10", "Saved data restores to the same data after any crash and restart",
 "A valid data tree written out as JSON text, or as XML if it contains neither annotations nor anydata nor empty lists (which have no XML form here), and read back by the same or a newly loaded model, in any number of save, crash and restart cycles, is equal to the original: same nodes, same values of every type, same order of entries. If a save is cut short by a crash, restoring either refuses the file or, when the previous file is kept, gives exactly the last completed save.",
 ["crash_points", "histories", "inputs"],
 "Every history of edits and saves with crashes at any byte of the file being written.",
 "Tests compare a few fixed documents in one direction.",
 ["yangson/instance.py", "yangson/schemanode.py", "yangson/datatype.py", "yangson/xmlparser.py", "yangson/datamodel.py"],
 [("to_raw/from_raw of types", "yangson/datatype.py"),
  ("to_xml/from_xml", "yangson/instance.py, yangson/schemanode.py, yangson/datatype.py")],
 ["raw_value()", "to_xml()", "from_raw()", "from_xml()", "equality of values"])

prop("C11", "XML arriving in pieces gives the same data as XML arriving at once",
 "However an XML document is divided into chunks when it is fed to the XML parser, and however often the parser is asked to process what has arrived, the resulting element tree and the instance made from it are the same as for the whole document. A document that ends prematurely is reported as an error and is never taken for a complete one.",
 ["schedules", "fault_sequences"],
 "Every division into chunks, every pattern of processing calls and every truncation.",
 "Tests feed complete documents.",
 ["yangson/xmlparser.py", "yangson/schemanode.py", "yangson/datatype.py"],
 [("pull parser recording namespace declarations", "yangson/xmlparser.py XMLParser")],
 ["XMLParser.root", "from_xml()"])

prop("C12", "A dumped and restored model behaves like the original",
 "A data model that is pickled and restored at any moment of its life, before or after use and any number of times, gives the same results as the original for every operation, also when used together with it. A dump damaged by truncation is refused, and dumping has no effect on the model.",
 ["crash_points", "histories"],
 "Every history of operations with dump and restore at any point.",
 "The tests pickle one fresh model and compare its digest.",
 ["yangson/datamodel.py", "yangson/schemanode.py", "yangson/schemadata.py", "yangson/datatype.py", "yangson/statement.py"],
 [("picklable schema objects", "yangson/schemanode.py, yangson/datatype.py")],
 ["results of operations on the restored model"])

prop("C13", "The exit status of the command-line tool tells the truth under faults",
 "The command-line tool returns zero if and only if the requested action (printing id, tree or digest, dumping a model, or validating data) was carried out completely and, for validation, the data is valid for the requested scope and content type. If any file cannot be opened, read or completely written, is damaged, or describes an unusable model, the status is non-zero; invalid data gives status 3. A model dumped by a successful run is usable in place of the library and gives the same output.",
 ["fault_sequences", "crash_points"],
 "Every combination of options and of faults in the files read and written.",
 "No test runs the command-line tool.",
 ["yangson/__main__.py", "yangson/datamodel.py"],
 [("exception handlers mapping errors to exit codes", "yangson/__main__.py main")],
 ["return value or exception of main()", "standard output", "dump file"])

prop("C14", "Conversion of YANG library data is faithful or fails visibly",
 "The converter from new-style to old-style YANG library data produces, whenever it reports success, complete output that lists exactly the modules of the selected schema with their revision, namespace, submodules, features, deviations and conformance, so that a model loaded from it is the one described. If the input cannot be read or is not valid, the datastore or schema does not exist, or the output cannot be written completely, it reports failure.",
 ["fault_sequences", "inputs"],
 "Every valid library description with several module sets and schemas, and every fault of the files read and written.",
 "No test runs the converter.",
 ["yangson/convert8525.py"],
 [("selection of schema and module sets", "yangson/convert8525.py main"),
  ("module entries", "yangson/convert8525.py MainModuleData")],
 ["return value or exception of main()", "output file", "model loaded from the output"])

prop("C15", "Modification timestamps follow edits even if the clock jumps",
 "The timestamp of an instance tells when its value was last modified. The node returned by an edit carries the time of that edit. Reading and moving never introduce a time at which nothing was loaded or edited, and nodes outside the edited branch keep the time they had. A node reached by going up is never older than the node it was reached from, nor than it was before, whatever the clock does in between (standing still, jumping forwards or backwards).",
 ["schedules", "histories", "fault_sequences"],
 "Every history of edits and moves by interleaved clients under every behaviour of the clock.",
 "Tests read the real clock and do not check timestamps.",
 ["yangson/instance.py", "yangson/instvalue.py"],
 [("timestamps of structured values", "yangson/instvalue.py StructuredValue"),
  ("maximum of timestamps when going up", "yangson/instance.py InstanceNode.up")],
 ["timestamp of instances and of structured values"])

prop("C16", "Equality and hashes of values are reliable entity tags",
 "Two structured values compare equal exactly if their contents are equal, and equal values have equal hashes, no matter how, when and in which order of members they were built, annotations included. A client that commits only if the current value still equals the one it read therefore never overwrites a change of another client. Hashes of different contents differ except for accidental collisions.",
 ["schedules", "histories"],
 "Every interleaving of optimistic read-modify-write transactions.",
 "Tests compare a few values.",
 ["yangson/instvalue.py", "yangson/instroute.py", "yangson/instance.py"],
 [("__eq__ and __hash__", "yangson/instvalue.py ArrayValue, ObjectValue")],
 ["==, != and hash() of values"])

prop("C17", "Validation counters count validations",
 "The counters shown in the schema tree tell how many instances of each schema node have been validated since the model was loaded or the counters were cleared. Validations that fail count the nodes visited up to the failure, never more than a complete pass, and operations other than validation do not count.",
 ["histories"],
 "Every history of validations, failures, clearing and other operations.",
 "Tests compare the counters after one fixed validation.",
 ["yangson/schemanode.py", "yangson/datamodel.py"],
 [("val_count", "yangson/schemanode.py SchemaNode._validate, clear_val_counters")],
 ["ascii_tree(val_count=True)", "clear_val_counters()"])

prop("C18", "Damaged or hostile documents are refused cleanly",
 "Reading a document that was damaged or replaced in any part (flipped, lost, duplicated or swapped parts, wrong types, unknown or misplaced members and annotations), as JSON or XML, either gives an instance or raises one of the documented data exceptions that names the place, never another error and never a hang. It is accepted exactly if every member is known to the schema where it stands and every value can be decoded for its type, and what is accepted can be validated, edited and written out with documented results only.",
 ["fault_sequences", "inputs"],
 "Every sequence of corruptions applied to stored or transmitted documents.",
 "Tests contain a dozen hand-made wrong documents.",
 ["yangson/schemanode.py", "yangson/datatype.py", "yangson/datamodel.py", "yangson/instance.py"],
 [("from_raw/from_xml", "yangson/schemanode.py, yangson/datatype.py"),
  ("exception hierarchy", "yangson/exceptions.py")],
 ["from_raw()", "from_xml()", "validate()", "raw_value()"])

prop("C19", "Adding defaults gives exactly the default values in use",
 "Whatever history produced a data tree, adding defaults returns the tree with exactly those default values and containers that the model puts in use for the requested content type, honouring choices, cases and when conditions, and with all other data unchanged; doing it again changes nothing. With tagging, exactly the added values are marked as default, an added container as a whole. Validation gives the same verdict with and without the defaults added.",
 ["histories", "schedules"],
 "Every history of edits by interleaved clients, with defaults added at any point.",
 "Tests compare the defaults of one document.",
 ["yangson/instance.py", "yangson/schemanode.py"],
 [("add_defaults", "yangson/instance.py"), ("_add_defaults, _default_instance", "yangson/schemanode.py")],
 ["add_defaults()", "raw_value()"])

prop("C20", "Models in one process do not influence each other",
 "Any number of data models, with different modules, revisions, features or deviations, can be loaded and used in one process in any order and interleaving, also from several threads. Each behaves as if it were the only one.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of loads and uses of several models, sequential and threaded.",
 "Tests use several models but compare nothing across them.",
 ["yangson/datamodel.py", "yangson/schemadata.py", "yangson/schemanode.py", "yangson/datatype.py", "yangson/xpathparser.py"],
 [("no module-level or class-level mutable state", "yangson/*.py")],
 ["schema_digest()", "validation and defaults", "errors"])

prop("C21", "XPath expressions have the values the standards give them",
 "At every point of every history of edits, in whatever thread and after interrupted evaluations, an XPath 1.0 expression with the YANG functions, evaluated at any node, yields the value that XPath 1.0 and RFC 7950 define for the data tree with all defaults in use: axes, name tests, predicates and positions, set union, conversions and comparisons, arithmetic, string functions, current(), deref(), derived-from(), enum-value(), bit-is-set() and re-match(). A node set never holds a node twice. Evaluation changes no data, and one parsed expression can be used for any number of trees, nodes and threads.",
 ["histories", "schedules", "inputs"],
 "Every expression, context node and history of data, with evaluations interleaved, threaded and interrupted.",
 "Tests evaluate a fixed list of expressions on two documents.",
 ["yangson/xpathast.py", "yangson/xpathparser.py", "yangson/nodeset.py", "yangson/instance.py"],
 [("expression classes", "yangson/xpathast.py"), ("NodeSet", "yangson/nodeset.py"), ("axes", "yangson/instance.py")],
 ["evaluate()", "must and when conditions"])

# not applicable to this technique (pure functions of their input)
NA = "No schedule, clock, fault, history or second party enters: "
prop("C30", "Lexical, canonical and range rules of the built-in types",
 "For each built-in type and its restrictions, parsing accepts exactly the lexical representations of RFC 7950 and the canonical form of a value is the one defined there.",
 ["inputs"], "Every lexical value of every type with every restriction.",
 "Tests sample a few values per type.", ["yangson/datatype.py"], [("type classes", "yangson/datatype.py")], ["parse_value()", "canonical_string()", "in"])
prop("C32", "The YANG parser accepts exactly the YANG 1.1 syntax",
 "Every text conforming to the YANG 1.1 grammar is parsed into the statements it denotes, and every other text is refused.",
 ["programs"], "Every module text.",
 "Tests parse a few modules.", ["yangson/statement.py", "yangson/parser.py"], [("ModuleParser", "yangson/statement.py")], ["ModuleParser.parse()"])
prop("C33", "Schema construction follows RFC 7950 for every set of modules",
 "Uses, refine, augment, deviation, features, status and choice short-hands of every valid set of modules give the schema tree defined by RFC 7950.",
 ["programs", "configurations"], "Every valid set of modules and features.",
 "Tests build a few models.", ["yangson/schemanode.py", "yangson/schemadata.py", "yangson/datamodel.py"], [("statement handlers", "yangson/schemanode.py")], ["schema_digest()", "ascii_tree()"])
prop("C34", "Schema tree and digest describe the schema completely",
 "The ASCII tree and the JSON digest contain each schema node with its flags and type information and nothing else, for every model.",
 ["programs"], "Every model.", "Tests compare the output of a few models.", ["yangson/schemanode.py"], [("_ascii_tree, _node_digest", "yangson/schemanode.py")], ["ascii_tree()", "schema_digest()"])
prop("C35", "XML Schema patterns are translated faithfully",
 "Every pattern restriction matches exactly the strings that the XML Schema regular expression denotes.",
 ["inputs", "programs"], "Every pattern and string.", "Tests use a few patterns.", ["yangson/constraint.py"], [("Pattern", "yangson/constraint.py")], ["validation of strings with patterns"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
