"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, pathlib
S = "src/cwl_utils/"
GEN = [S + f"parser/cwl_v1_{i}.py" for i in (0, 1, 2)]
UT = [S + f"parser/cwl_v1_{i}_utils.py" for i in (0, 1, 2)]
RF = [S + f"cwl_v1_{i}_expression_refactor.py" for i in (0, 1, 2)]
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe, "hook_needed": None}})


p("C01", "Every declared field survives load, the object model and save",
  "For every object type of CWL v1.0, v1.1 and v1.2, loading a document reads each field the type declares from the document key of that name, keeps the value under the matching attribute, and saving writes that attribute back under the same key. "
  "No field is dropped, duplicated, defaulted away, swapped with another field or written under another key, and the declared key list used to recognise fields is exactly the set of fields loaded and saved.",
  ["inputs", "programs"], "every object type x every field x every document that uses the field, in all three versions",
  "About 190 types with over 1,300 fields exist; the tests round-trip some tens of documents that use a small part of them, so a field that is lost in one rarely used type stays unnoticed.",
  GEN, [("fromDoc/save/__init__/attrs of each class", "parser/cwl_v1_*.py"), ("save, save_relative_uri", "parser/cwl_v1_*.py")],
  ["attributes of the loaded objects", "the mapping returned by save"])

p("C02", "Invalid documents are always rejected with a validation error",
  "For every object type, a document that misses a required field, carries a field the type does not declare, carries a wrong class tag, or has a field value that fails its type is rejected with a validation error that reports every failing field; the failure of a field is never swallowed. "
  "Optional fields, and only those, may be absent.",
  ["inputs"], "every object type x every invalid document",
  "The tests contain a handful of invalid documents; whether each of the ~190 generated types records each field's failure can only be enumerated over the code.",
  GEN, [("_errors__ accumulation in fromDoc", "parser/cwl_v1_*.py"), ("_RecordLoader, _UnionLoader, _EnumLoader, _PrimitiveLoader, _ArrayLoader, _MapLoader load", "parser/cwl_v1_*.py")],
  ["exception raised by load_document*"])

p("C03", "Equality and hashing of model objects cover every declared field",
  "Two model objects are equal exactly when they are of the same type and all their declared fields are equal, and the hash is computed from those same fields, so that equal objects have equal hashes and objects that differ in any one field are never equal.",
  ["inputs"], "every object type x every pair of objects",
  "No test compares objects that differ in one field only, for each of the ~1,300 fields.",
  GEN, [("__eq__, __hash__", "parser/cwl_v1_*.py")], ["== and hash() of model objects"])

p("C04", "Identifiers and references are scoped on load and unscoped alike on save",
  "On load, every identifier and link is resolved against the identifier of the enclosing object and every identified object is registered under its identifier; on save, they are made relative to that same identifier with the same scoping rules for that kind of link, unless absolute URIs are requested. "
  "Thus an identifier or link points to the same object after a load-save-load cycle.",
  ["inputs", "programs"], "every identifier and every link field in every object type",
  "Scoping flags are per field; tests reach only the commonly used link fields (source, outputSource, run) in simple nesting.",
  GEN, [("_URILoader, expand_url", "parser/cwl_v1_*.py"), ("save_relative_uri and its per-field arguments", "parser/cwl_v1_*.py"), ("loadingOptions.idx", "parser/cwl_v1_*.py")],
  ["id/source/outputSource/run values after load and after save"])

p("C05", "The accepted type of each field equals the type its model declares",
  "For every field of every object type, the set of document shapes the loader accepts (scalars, enumerations, arrays, unions, records, identifier maps, DSL shorthands) is the one that the field's declared model type admits, and every concrete record type of a version is reachable by the loader for whole documents or nested fields. "
  "Within a version the term-to-URI vocabulary and its reverse are mutually inverse, and contain every record type and enumeration symbol.",
  ["inputs", "programs"], "every field and every loader of all three versions",
  "The loaders form a grammar with several hundred productions per version; tests sample a few sentences of it.",
  GEN, [("loader constants", "parser/cwl_v1_*.py"), ("_vocab/_rvocab", "parser/cwl_v1_*.py")], ["documents accepted and objects produced"])

p("C06", "Each CWL version is handled by its own implementation and others are refused",
  "Every operation that works on any CWL version (loading, saving inputs, type inference, stream expansion, expression refactoring) hands v1.0, v1.1 and v1.2 content to the implementation of exactly that version, passing on the caller's arguments. "
  "Any other or missing version is refused with an error that says so, never processed by the wrong version or answered with nothing.",
  ["inputs", "configurations"], "every version-dispatching operation x every cwlVersion value",
  "Tests use valid documents of the versions at hand; a dispatcher that drops an option or falls through to nothing for an unexpected version is not exercised.",
  [S + "parser/__init__.py", S + "parser/utils.py", S + "expression_refactor.py"],
  [("load_document_by_yaml and friends", "parser/__init__.py"), ("convert_stdstreams_to_files, load_inputfile*, type_for_*", "parser/utils.py"), ("refactor", "expression_refactor.py")],
  ["objects' module, results and errors of the version-neutral API"])

p("C07", "Version-spanning type groups contain every version's class",
  "Each version-neutral group of object types offered for isinstance checks or annotations contains the class of that kind from each CWL version that has it, and nothing of another kind. "
  "The process predicate accepts every process kind of every version.",
  ["programs"], "every exported group x every version",
  "Tests use the groups with one or two versions; a member missing for one version silently disables features for it.",
  [S + "parser/__init__.py"], [("TypeAlias unions and *Types tuples", "parser/__init__.py"), ("is_process", "parser/__init__.py")],
  ["isinstance(obj, *Types)", "is_process"])

p("C08", "Every problem found while checking workflow links is reported",
  "Statically checking a workflow examines every workflow output and every step input against the type of its source, and each exception, each required step input without source or default, and each incompatible or possibly incompatible link found ends in a validation error or, for merely possible problems, a logged warning. "
  "No sink is skipped and no collected problem is discarded.",
  ["inputs", "programs"], "every workflow",
  "Tests check five or six workflows; each combination of problem kind and position needs its own workflow.",
  [S + "parser/utils.py"] + UT, [("static_checker", "parser/utils.py"), ("check_all_types", "parser/cwl_v1_*_utils.py")],
  ["ValidationException raised by static_checker", "warnings logged"])

p("C09", "Link compatibility follows the CWL type-assignment rules for all types",
  "Deciding whether a source type may be assigned to a sink type compares both operands at every level: arrays by their items, records by every required field of the sink, enumerations and unions by membership, where a union source needs one (or in strict mode every) member to fit. "
  "A type is never accepted or rejected without having looked at the source and at the sink, 'Any' is accepted, and value-based modifiers (linkMerge, pickValue, scatter, valueFrom, default) are taken into account for each link.",
  ["inputs"], "every pair of types, in all versions",
  "The relation is recursive over an infinite set of types; tests use a few pairs.",
  [S + "parser/utils.py"] + UT, [("can_assign_src_to_sink, check_types, merge_flatten_type, _compare_records", "parser/utils.py"), ("_compare_type, check_all_types, type_for_source", "parser/cwl_v1_*_utils.py")],
  ["pass/warning/exception classification of links"])

p("C10", "Standard-stream shortcuts expand to equivalent explicit form",
  "Expanding the stdin, stdout and stderr shortcut types of a command line tool turns each such parameter into an ordinary file parameter whose glob (or stdin reference) names exactly the stream file of the tool, generating that name when the tool gives none, for every such parameter and in each version that has the shortcut. "
  "A conflicting explicit stdin together with a stdin-typed input is an error, and tools without shortcuts are unchanged.",
  ["inputs"], "every command line tool with any mix of stream shortcuts",
  "Tests cover one tool per stream and version with the stream name given or not.",
  [S + "parser/utils.py"] + UT, [("convert_stdstreams_to_files", "parser/utils.py, parser/cwl_v1_*_utils.py")],
  ["tool object after conversion"])

p("C11", "Inferred types of sources and steps account for every modifier",
  "The type inferred for a source, step input or step output of a workflow reflects the declared type in the workflow or in the step's process and then every applicable modifier: merge mode, array wrapping once per scatter dimension, optionality for conditional steps, loop accumulation and pickValue. "
  "A reference that names neither a workflow input nor an existing step parameter fails with an error rather than yielding some other parameter's type.",
  ["inputs"], "every workflow and every reference in it",
  "Tests use a dozen workflows with one modifier at a time.",
  [S + "parser/utils.py"] + UT, [("type_for_source, type_for_step_input, type_for_step_output", "parser/cwl_v1_*_utils.py"), ("param_for_source_id, merge_flatten_type", "parser/utils.py")],
  ["return values of the type_for_* functions"])

p("C12", "File contents are never read beyond the 64 KiB limit",
  "Reading the content of a file on behalf of a document never takes more than 64 KiB into memory: v1.0 and v1.1 truncate there, v1.2 refuses a longer file with an error instead of truncating. "
  "Every place that fills in a file's contents goes through this bounded read.",
  ["inputs"], "every file of every size, in each version",
  "Tests use one file just above the limit; the claim is about every read.",
  UT, [("content_limit_respected_read_bytes", "parser/cwl_v1_*_utils.py"), ("CONTENT_LIMIT", "utils.py")],
  ["bytes returned", "bytes read from the stream"])

p("C13", "Extraction visits every requirement and hint of every nested process",
  "Extracting container images or software citations from a document visits the requirements and the hints of the document itself, of each workflow step, and of each process the steps run, recursively, and reports every matching entry found in either list; whichever place an image is named, the same normalisation (default tag) applies.",
  ["inputs", "programs"], "every workflow, nested to any depth",
  "Tests use one or two workflows; whether steps' own hints or a nested workflow's requirements are visited depends on the structure.",
  [S + "docker_extract.py", S + "cite_extract.py"], [("traverse, traverse_workflow, extract_docker_requirements", "docker_extract.py"), ("traverse, extract_software_packages", "cite_extract.py")],
  ["set of images pulled, packages printed"])

p("C14", "Image pulling reports failures and honours the force option",
  "Pulling or saving a container image runs the engine's own command for exactly the requested image, raises an error whenever that command fails, skips the pull only when the image is already stored and no forced pull was asked for, and a forced pull always fetches again.",
  ["fault_sequences", "configurations"], "every image name x stored or not x forced or not x every command failure",
  "Tests need the engines and the network, so they run none or one of the combinations, and no failing one.",
  [S + "image_puller.py", S + "docker_extract.py"], [("ImagePuller._run_command_pull, save_docker_image of each subclass", "image_puller.py")],
  ["commands started", "exceptions raised"])

p("C15", "Document content never reaches a shell and only known programs are run",
  "Every child process is started from an argument vector without a shell, its program is one of the fixed engine or tool names or paths configured by the caller, and no part of the library evaluates document text as host code (eval, exec, unsafe deserialisation). "
  "Document supplied text can only become a single argument, never a program, an option separator of a shell line or host code.",
  ["inputs"], "every document and every configuration",
  "A test observes one command; the claim is about every call site that starts a process or interprets text.",
  [S + "image_puller.py", S + "singularity.py", S + "sandboxjs.py", S + "inputs_schema_gen.py", S + "utils.py"],
  [("subprocess call sites", "image_puller.py, singularity.py, sandboxjs.py, cwl_v1_*_expression_refactor.py"), ("YAML loader construction", "utils.py, parser/*.py")],
  ["argv of child processes"])

p("C16", "JavaScript runs only where the document asks for it",
  "An expression is handed to a JavaScript engine only if the document enables inline JavaScript; otherwise only parameter references are evaluated, and anything else is an error or left as plain text. "
  "Expression libraries and the evaluation context (inputs, self, runtime) are passed to every JavaScript evaluation, each in a fresh context.",
  ["inputs"], "every expression string and requirement list",
  "Tests evaluate a few dozen strings; the gate must hold on every path to the engine.",
  [S + "expression.py", S + "sandboxjs.py", S + "cwlNodeEngine.js", S + "cwlNodeEngineJSConsole.js"],
  [("do_eval, interpolate, evaluator, jshead, needs_parsing", "expression.py"), ("execjs", "sandboxjs.py")],
  ["calls to JSEngine.eval"])

p("C17", "JavaScript engine processes are bounded in time and never leaked",
  "Every JavaScript engine process that is started is recorded for termination at exit, every evaluation, by whichever engine, is given the time limit of its caller, arms a timer that kills the engine on expiry and disarms it afterwards, and a process that died or timed out is discarded so that the next evaluation starts a new one. "
  "A failed or timed-out evaluation is reported as an error with its return code and never as a result.",
  ["fault_sequences", "histories"], "every sequence of evaluations, timeouts and engine deaths",
  "Tests have one timeout case; ordering of failures across evaluations is not sampled.",
  [S + "sandboxjs.py"], [("NodeJSEngine.exec_js_process, new_js_proc, __del__", "sandboxjs.py")],
  ["child processes", "JavascriptException"])

p("C18", "Failures while evaluating references are reported as workflow errors",
  "A parameter reference whose key, index or length does not fit the value it is applied to fails with a workflow error naming the reference, whatever the value's type; JavaScript failures surface as workflow errors carrying the engine's message. "
  "No lookup escapes as a bare index, key or type error and no failed lookup yields a value.",
  ["inputs"], "every reference x every context value",
  "Tests have a few failing references; the combination of segment kinds and value types is not enumerated.",
  [S + "sandboxjs.py", S + "expression.py"], [("regex_eval, param evaluation", "sandboxjs.py"), ("evaluator, do_eval", "expression.py")],
  ["WorkflowException"])

p("C19", "Splitting a string into expressions terminates and loses no text",
  "Scanning any string for $(...) and ${...} terminates, consumes the string strictly forward, and returns each expression together with all literal text around it unchanged except for the documented escapes; an unterminated expression in a context that requires one is an error. "
  "When parts are recombined into one JavaScript expression, literal parts are encoded as valid JavaScript string literals.",
  ["inputs"], "every string",
  "Tests contain a few strings; quoting, escapes, nested braces and newlines combine without bound.",
  [S + "expression.py"], [("scanner, interpolate", "expression.py")], ["results of do_eval/interpolate"])

p("C20", "Packing inlines every external reference, each relative to its own file",
  "Packing a document replaces every $import, $include, external step process and imported user-defined type, at any depth, by the content found relative to the file that contains the reference, and adds the requirements that the inlined form needs. "
  "The result has no remaining external references, no entry of the original is lost, and unresolvable references or unsupported forms raise an error.",
  ["inputs", "programs"], "every tree of documents, at any nesting",
  "Tests pack five documents whose files mostly sit in one directory.",
  [S + "pack.py", S + "schemadef.py", S + "utils.py"], [("pack_process, resolve_imports, resolve_steps, add_missing_requirements", "pack.py"), ("load_linked_file, resolved_path", "utils.py")],
  ["document returned by pack"])

p("C21", "User-defined types are inlined completely or refused with a clear error",
  "Inlining user-defined types replaces every reference to such a type in inputs and outputs, including array items, record fields and optional or shorthand forms, at any depth, by the full type, keeping names unique; malformed or missing types raise the library's own specific errors.",
  ["inputs"], "every schema definition list x every type expression",
  "Tests inline two or three definitions; error paths and nested shorthand combinations are not reached.",
  [S + "schemadef.py"], [("build_user_defined_type_dict, inline_types, _inline_type", "schemadef.py")], ["types after packing", "errors of cwl_utils.errors"])

p("C22", "Splitting a packed graph keeps every process and every link",
  "Splitting a packed document writes every process of the graph, main included, to its own output and rewrites every reference between them (steps' run targets, sources, output sources, imported types) to the new locations consistently, with the caller's format, directory and pretty-printing choices applied to each file. "
  "No entry of the graph is skipped.",
  ["inputs"], "every packed graph",
  "Tests split three documents and look at one or two of the written files.",
  [S + "graph_split.py"], [("graph_split, rewrite, rewrite_types", "graph_split.py")], ["files written"])

p("C23", "Command line conversions report success only for a written, complete result",
  "The refactoring and normalising commands process each given document, write its result under the output directory only, and return a non-zero status for any document that could not be converted; each option given on the command line reaches the conversion. "
  "Input documents are never modified.",
  ["inputs", "configurations"], "every list of documents and options",
  "Tests run each command on one or two valid documents with default options.",
  [S + "expression_refactor.py", S + "normalizer.py", S + "pack_cli.py"], [("refactor, run", "expression_refactor.py"), ("run", "normalizer.py, pack_cli.py")],
  ["exit status", "files in the output directory"])

p("C24", "Refactored workflows are well formed: references name declared parameters",
  "Every element that expression refactoring adds is connected: a generated reference to an input names an input parameter that is added to the same process, a generated step input's source and a generated link name the step and output created for it, a generated expression string is a complete expression, each generated model object receives each value in the field it is meant for, and a requirement that moves from the workflow to its steps passes over a step that has one of its own.",
  ["programs", "inputs"], "every workflow or tool that contains expressions, in each version",
  "The refactorer has some 100 generation sites in each of three versions; the tests run perhaps a third of them and only check that the result validates.",
  RF, [("replace_*_with_etool, generate_etool_from_expr, process_workflow_* , process_level_reqs, traverse_*", "cwl_v1_*_expression_refactor.py")],
  ["refactored workflow object"])

p("C25", "Refactoring visits every place where an expression can occur",
  "Expression refactoring inspects, for each workflow, step and command line tool, each field in which CWL permits expressions (requirements and hints, arguments, glob, outputEval, formats, secondary files, stream names, valueFrom, conditions, load listings) and either removes the expression or leaves the document untouched and says so; a change it makes is always signalled to the caller.",
  ["programs", "inputs"], "every field that may hold an expression x every document",
  "Tests have one document for some of the fields.",
  RF, [("traverse_workflow, traverse_step, traverse_CommandLineTool, cltool_*, process_workflow_*", "cwl_v1_*_expression_refactor.py")],
  ["refactored document", "modified flag / exit status 7"])

p("C26", "The three version implementations agree wherever the standard agrees",
  "For each helper that exists once per CWL version, the three copies perform the same steps under the same conditions and raise the same errors, except for the differences between the standard's versions; a behaviour present in one copy is present in the others.",
  ["programs", "inputs"], "every per-version helper x every input",
  "Each test document is of one version, so a copy that deviates is only noticed if that version is sampled at that point.",
  GEN + UT + RF, [("sibling modules", "parser/cwl_v1_*.py, parser/cwl_v1_*_utils.py, cwl_v1_*_expression_refactor.py")],
  ["behaviour of the same call on the same content in different versions"])

p("C27", "Generated input schemas describe exactly the inputs of the process",
  "The generated JSON schema has one property per input of the process, marks an input required exactly if it is neither optional nor has a default, gives each the schema of its declared type including arrays, enumerations and records, and keeps each definition that is referenced; generation ends for every dependency structure.",
  ["inputs"], "every process",
  "Tests compare a dozen example documents.",
  [S + "inputs_schema_gen.py"], [("cwl_to_jsonschema, generate_json_schema_property, get_is_required_from_input_parameter, get_property_dependencies", "inputs_schema_gen.py")],
  ["JSON schema returned"])

p("C28", "A file format is accepted only if every file declares a compatible format",
  "Checking formats examines each file of a list, optional ones included, and fails for a file without a format or with a format that is neither one of the allowed ones nor connected to one through sub-class or equivalent-class links of the ontology; the search through the ontology ends even if its links form cycles.",
  ["inputs"], "every file list and ontology graph",
  "Tests check single files against small ontologies.",
  [S + "file_formats.py"], [("check_format, formatSubclassOf", "file_formats.py")], ["ValidationException from check_format"])

p("C29", "Shape conversions of nested data are total and keep every element",
  "The conversions between list and mapping form, between bytes and text, and of type shorthands apply to every element at every depth, keep every element and key, and return the same result for equal inputs.",
  ["inputs"], "every nested structure",
  "Tests convert one or two small examples.",
  [S + "utils.py"], [("bytes2str_in_dicts, normalize_to_map, normalize_to_list, sanitise_schema_field", "utils.py")], ["return values"])

p("C30", "Importing one document into another keeps the importer's loading context",
  "A document brought in by import, include or a reference is fetched and resolved relative to the importing file, is loaded with the same version-specific rules, and is cached under its own location only, so that each location is loaded once and always yields the same object.",
  ["inputs", "histories"], "every import graph",
  "Tests import one or two files.",
  GEN, [("_load_field, _document_load_by_url, LoadingOptions", "parser/cwl_v1_*.py")], ["objects loaded through $import/$include/run"])

p("C31", "Repeated or interleaved conversions in one process give the same result",
  "The result of packing, splitting, loading or refactoring a document depends only on that document and the options, not on which documents were processed earlier in the same process. What is kept between calls (the configured engine, probed versions) answers a later call exactly as it answered the first.",
  ["histories"], "every sequence of calls", "Tests run each operation once per process or in one fixed order.",
  [S + "schemadef.py", S + "sandboxjs.py", S + "singularity.py"], [("module level state", "schemadef.py, sandboxjs.py, singularity.py")], ["results of repeated calls"])

p("C32", "Refactored workflows compute the same outputs as the originals",
  "Executing the refactored form of a workflow yields the same outputs as executing the original for all inputs.",
  ["inputs", "programs"], "every workflow x every input object", "Tests do not execute most of the refactored workflows.",
  RF, [("whole refactorer", "cwl_v1_*_expression_refactor.py")], ["workflow outputs"])

p("C33", "JavaScript evaluation yields the value the ECMAScript semantics define",
  "The value returned for an expression is the JSON form of what the JavaScript engine computes, for every expression and context.",
  ["inputs"], "every expression x context", "Only a few expressions are evaluated in tests.",
  [S + "sandboxjs.py", S + "cwlNodeEngine.js"], [("execjs", "sandboxjs.py")], ["value of do_eval"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
