#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
S = "src/cwl_utils/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "String interpolation reproduces literal text and finds every expression block",
 "For every string, interpolation leaves the text outside $(...) and ${...} blocks exactly as it is apart from the escapes, replaces each block in order by the value of its expression (a string as is, anything else as key-sorted JSON), and yields the value itself when the whole (stripped) string is a single block. A block ends at its matching close bracket, ignoring brackets inside single or double quotes and honouring backslash escapes inside quotes; a string that ends inside a block is rejected with a substitution error. A backslash in literal text follows the rule of the selected escaping behaviour (1: drop the backslash and keep the next character; 2: only backslash-$(, backslash-${ and double backslash are special), and converting an interpolated string to a single JavaScript expression gives an expression with the same value, up to the layout of embedded JSON.",
 ["inputs"], "all strings (any mix of brackets, quotes, backslashes, dollars and other text), all root variables, both escaping behaviours",
 "The unit tests try a few dozen strings; the scanner is a push-down automaton over unbounded strings and its mistakes need particular nestings of quotes, brackets and escapes.",
 ["expression.py"], [("scanner automaton", "expression.py"), ("interpolate loop", "expression.py")],
 observe=["cwl_utils.expression.interpolate", "cwl_utils.expression.scanner"])

prop("P02", "Parameter references denote exactly the referenced member of the context",
 "Evaluating a parameter reference starting at inputs, self or runtime returns the value reached by following its segments one after the other (.name, ['name'], [\"name\"] select that key of a mapping, [n] the element of a list with that index, a final .length of a list its length), and $(null) is null. A segment that does not apply (missing key, index out of range, indexing a non-container) and any other first symbol are never turned into a value: the whole expression is handed unchanged to the JavaScript engine when JavaScript is enabled, and rejected with a JavaScript exception when it is not. Text that is not a parameter reference is likewise only ever evaluated by the JavaScript engine, and only when it is enabled.",
 ["inputs"], "all reference texts and all JSON-like context values",
 "Tests evaluate a handful of references against small contexts; the guarantee is over every chain of segments and every shape of value, including empty lists, File objects and absent keys.",
 ["expression.py", "sandboxjs.py", "types.py"], [("regex_eval", "sandboxjs.py"), ("evaluator", "expression.py")],
 observe=["cwl_utils.expression.evaluator", "cwl_utils.sandboxjs.NodeJSEngine.regex_eval"])

prop("P03", "Expression evaluation sees the right context and is enabled by requirements only",
 "Evaluating a CWL value returns it unchanged, without evaluating anything, unless it is a string containing $( or ${. Otherwise it is evaluated in a context of exactly inputs, self and runtime (the given resources plus tmpdir and outdir, null when empty) in which every byte string at any depth is decoded to text and nothing else is changed; JavaScript is enabled exactly when an InlineJavascriptRequirement is among the requirements, with the expression library of the last such one in front of declarations of all context variables. The escaping rule of CWL v1.0/v1.1 is used exactly for those versions (and the early v1.2 dev versions), and any failure surfaces as a workflow error carrying the cause.",
 ["inputs", "configurations"], "all values, contexts (any nesting of maps, lists and byte strings), requirement lists and versions",
 "Tests pass one or two requirement lists and flat contexts; nested lists of byte strings, several requirements and unusual versions are not reached.",
 ["expression.py", "utils.py"], [("do_eval", "expression.py"), ("bytes2str_in_dicts", "utils.py"), ("jshead", "expression.py")],
 observe=["cwl_utils.expression.do_eval"])

prop("P04", "Type assignability and link checks follow the CWL rules",
 "A source type can be assigned to a sink type exactly when: either is Any; both are arrays with assignable items; both are records and every field of the sink record is assignable from the same-named field of the source (a missing source field counts as null); the source is a union and, in strict mode, all of its members, in lenient mode at least one non-null member, can be assigned; the sink is a union with at least one member that fits (members of unions are compared leniently); or they are equal. Checking a link passes when valueFrom is given or the strict assignment holds, warns when only the lenient one holds and otherwise is an exception, after wrapping the source type in an array for merge_nested, or (per union member) for merge_flattened unless it already is an array; any other merge method is rejected.",
 ["inputs"], "all pairs of CWL types of any depth (primitives, unions, arrays, records), all merge methods",
 "Tests check a list of concrete pairs; the recursion is over unbounded type trees and mistakes show up only for particular combinations of unions, nesting and optional record fields.",
 ["parser/utils.py"], [("can_assign_src_to_sink", "parser/utils.py"), ("_compare_records", "parser/utils.py"), ("check_types", "parser/utils.py"), ("merge_flatten_type", "parser/utils.py")],
 observe=["cwl_utils.parser.utils.can_assign_src_to_sink", "cwl_utils.parser.utils.check_types", "cwl_utils.parser.utils.merge_flatten_type"])

prop("P05", "Every data link of a workflow is checked, and nothing else is reported",
 "Checking the links of a list of sinks examines every source of every step input or workflow output, in order, with the merge method in force (for listed sources the explicit one, else merge_nested when several are listed), and records exactly those links whose check is not a pass under warning or exception, attributing each to its own source and sink. In v1.2 links from conditional steps are treated as possibly null with a warning unless the sink accepts null or picks values, links from all-iterations loop steps as arrays, and an unused pickValue is warned about. A source that does not exist is reported by name, and checking a workflow raises a validation error whenever the links contain an exception and never otherwise.",
 ["inputs", "programs"], "all workflows: any number of steps, sinks, sources, merge methods and types, for each CWL version",
 "Tests check a few sample workflows; one skipped source in a multi-source link or one mis-attributed result needs a particular link structure.",
 ["parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py", "parser/utils.py"],
 [("check_all_types", "parser/cwl_v1_2_utils.py"), ("static_checker", "parser/utils.py")],
 observe=["cwl_utils.parser.cwl_v1_x_utils.check_all_types", "cwl_utils.parser.utils.static_checker"])

prop("P06", "The type inferred for step ports and link sources is the declared one, lifted",
 "The type inferred for a step output is the declared type of the same-named output of the process the step runs, wrapped in one array for a scattered step and in one array per scattered parameter for a nested crossproduct; for a step input with valueFrom it is Any; an output that is not there is an error. The type inferred for a list of sources is built from the lifted types of all of them, keeping each distinct lifted type once in first-seen order (two types are the same when they are equal up to record and field name prefixes and the order of union members), then merged by the given link merge method, and in v1.2 pickValue of a single value takes the items of the array.",
 ["inputs", "programs"], "all steps, scatter settings, output names, source lists and declared types, for each CWL version",
 "The tests use fourteen sample workflows; deduplication and scatter lifting are only exercised for one or two type shapes.",
 ["parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py", "parser/utils.py"],
 [("type_for_step_output", "parser/cwl_v1_2_utils.py"), ("type_for_source", "parser/cwl_v1_2_utils.py"), ("_compare_type", "parser/cwl_v1_2_utils.py"), ("param_for_source_id", "parser/utils.py")],
 observe=["cwl_utils.parser.utils.type_for_source", "cwl_utils.parser.utils.type_for_step_output"])

prop("P07", "Standard stream shortcuts become File ports bound to the stream's file",
 "Converting the stream shortcuts of a command line tool turns every output of type stdout or stderr into a File output that globs exactly the file the tool redirects that stream to, choosing one shared file name per stream when the tool names none and keeping the given name otherwise; from v1.1 on, the input of type stdin becomes a File input and stdin is redirected from that input's path. All other ports and fields stay as they were. A shortcut that already has a binding, or a stdin shortcut of a tool that already names stdin, is rejected.",
 ["inputs", "programs"], "all tools: any number and order of ports of any type, with and without given stream file names, for each CWL version",
 "Tests convert tools with one output each; several ports of the same stream, mixed streams and rejected combinations are not reached.",
 ["parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py", "parser/utils.py"],
 [("convert_stdstreams_to_files", "parser/cwl_v1_2_utils.py")], observe=["cwl_utils.parser.utils.convert_stdstreams_to_files"])

prop("P08", "loadContents never returns more than 64 KiB, and v1.2 refuses longer files",
 "Reading file contents for loadContents returns the whole file, decoded as UTF-8, whenever it has at most 64 KiB. For a longer file CWL v1.0 and v1.1 return the characters that lie completely in its first 64 KiB, and CWL v1.2 raises a workflow error; no version ever consumes more than 64 KiB plus one byte of the file.",
 ["inputs"], "all files (any length and byte content), each CWL version",
 "Tests read two lengths of one repeated ASCII character; the boundary lengths and multi-byte characters at the cut are not reached.",
 ["parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py"],
 [("content_limit_respected_read", "parser/cwl_v1_2_utils.py"), ("CONTENT_LIMIT", "parser/cwl_v1_2_utils.py")],
 observe=["content_limit_respected_read", "content_limit_respected_read_bytes"])

prop("P09", "File format compatibility is ontology reachability, checked for every file",
 "A format is accepted for another exactly when they are equal or the second can be reached from the first by following subclass links upwards and equivalence links in either direction any number of times, whatever cycles the ontology has, and the search always terminates. Checking the formats of a file or a list of files succeeds exactly when every given file that is not empty declares a format that is accepted for at least one of the allowed formats, and otherwise raises a validation error.",
 ["inputs"], "all ontology graphs (with cycles), all pairs of formats, all lists of files and allowed formats",
 "Tests ask four questions of one fixed ontology and pass single files; cycles, equivalence chains and later files of a list are not reached.",
 ["file_formats.py"], [("formatSubclassOf", "file_formats.py"), ("check_format", "file_formats.py")],
 observe=["cwl_utils.file_formats.formatSubclassOf", "cwl_utils.file_formats.check_format"])

prop("P10", "Documents are loaded by the parser of their declared version and saved as one",
 "Loading a document uses exactly the parser of its declared cwlVersion and rejects a missing or unknown version with a validation error; the entry points for URIs, strings and parsed YAML agree. From a packed document with a graph the entry whose id is the requested one (or main, ignoring the leading #) is loaded with the document's version, a missing one is reported, and with load_all every process is returned and carries the version. Saving a list of processes yields a graph document whose version is the numerically latest among them and which contains every process in order; any other value is saved element by element.",
 ["inputs", "programs"], "all documents: versions, graphs, target ids; all lists of processes with any mix of versions",
 "Tests load a couple of packed files and save pairs of processes; the choice among many graph entries and version orderings is not settled by them.",
 ["parser/__init__.py"], [("load_document_by_yaml", "parser/__init__.py"), ("_get_id_from_graph", "parser/__init__.py"), ("save", "parser/__init__.py"), ("version_split", "parser/__init__.py")],
 observe=["cwl_utils.parser.load_document_by_yaml", "cwl_utils.parser.load_document", "cwl_utils.parser.save"])

prop("P11", "Every field of every CWL object survives load and save under its own name",
 "For every CWL object class of every version, loading takes each field from the document key of that name, collects unknown namespaced keys as extension fields and rejects other unknown keys, and reports a missing required field. Saving writes each field that is set, and each extension field, under its own name and nothing else (besides namespaces and schemas at the top), so loading and saving again loses, invents and exchanges no field. Two objects are equal exactly when they are of the same class and all of their fields are equal, and equal objects have equal hashes.",
 ["inputs", "programs"], "all classes of the three parsers, all combinations of present and absent fields, all field values",
 "About 200 generated classes with over a thousand fields; tests load a few sample documents that set a small part of them.",
 ["parser/cwl_v1_0.py", "parser/cwl_v1_1.py", "parser/cwl_v1_2.py"],
 [("fromDoc / __init__ / save / __eq__ / __hash__ / attrs of each class", "parser/cwl_v1_2.py")],
 observe=["<class>.fromDoc", "<class>.save", "<class>.__eq__"])

prop("P12", "The CWL shorthands mean the same as the forms they abbreviate",
 "When a document is loaded, a type written T? means the union of null and T, T[] the array of T (one level; a doubled T[][] is no shorthand) and their combination the union of null and the array; members of a list of types are expanded in place without duplicates and in order. A secondary file pattern ending in ? is the pattern without it and not required, patterns and maps in lists keep their order, and maps with unknown or missing keys are rejected. A map in place of a list of objects means one object per entry, in order, whose subject field is the key and whose other content is the value (or the value under the default field when it is not a map), without changing the given document; list loaders keep the order and number of items, and a union takes the first alternative that accepts.",
 ["inputs"], "all type strings, lists of types, secondary file specifications, maps and lists, for each of the three parsers",
 "Tests load a few documents with one or two shorthands each; combinations, nesting, duplicates and rejected forms are not reached.",
 ["parser/cwl_v1_0.py", "parser/cwl_v1_1.py", "parser/cwl_v1_2.py"],
 [("_TypeDSLLoader", "parser/cwl_v1_2.py"), ("_SecondaryDSLLoader", "parser/cwl_v1_2.py"), ("_IdMapLoader", "parser/cwl_v1_2.py"), ("_ArrayLoader", "parser/cwl_v1_2.py"), ("_UnionLoader", "parser/cwl_v1_2.py")],
 observe=["<loader>.load", "cwl_utils.parser.load_document_by_yaml"])

prop("P13", "Packing yields one self-contained document equivalent to the linked files",
 "Packing replaces every import by the parsed and every include by the literal content of the file it names, resolved against the file it stands in, at any depth; every step's external process is embedded, packed in turn against its own location, and the maps of ports, requirements, steps and step inputs become equivalent lists. Local source references lose exactly one leading #, schema definition requirements disappear, a subworkflow requirement is present whenever a step runs a workflow and is never duplicated, and the packed version is the latest among the document and the embedded processes. Everything else in the document stays as it was, and an already packed graph is returned as it is.",
 ["inputs", "programs"], "all documents and file trees: any nesting of imports, steps and subworkflows, in map or list form",
 "Tests pack a few sample workflows and compare counts; relative links in nested directories and mixed forms are hardly exercised.",
 ["pack.py", "utils.py"], [("pack_process", "pack.py"), ("resolve_imports", "pack.py"), ("resolve_steps", "pack.py"), ("listify_everything", "pack.py"), ("add_missing_requirements", "pack.py")],
 observe=["cwl_utils.pack.pack"])

prop("P14", "User defined types are inlined to the type they name",
 "Inlining the port types of a document replaces every reference to a user defined type by a copy of its definition, at any depth of arrays, record fields and unions, resolved against the file the reference stands in, and every import by the imported type; T[] becomes an array of T and T? a union of null and T. Built-in types, enums and all other parts stay as they are, the table of definitions is not changed, and every type definition of the schema requirement, local or imported, is available under its file's location and its name. An unknown type name, a type without a type name, an array without items and a record without fields are each rejected with their own error.",
 ["inputs", "programs"], "all type expressions of any depth and all tables of user defined types spread over files",
 "Tests inline the types of one family of sample files; deeper nestings and the error branches are hardly exercised.",
 ["schemadef.py"], [("_inline_type", "schemadef.py"), ("build_user_defined_type_dict", "schemadef.py"), ("inline_types", "schemadef.py")],
 observe=["cwl_utils.schemadef.inline_types", "cwl_utils.schemadef.build_user_defined_type_dict"])

prop("P15", "Map and list forms convert into each other and links resolve per URL rules",
 "Turning a map into a list gives one entry per key, in order, holding the key under the key field and the value's content (or the value under the value field), turning such a list into a map gives back the map, and input that already has the wanted form is returned as an independent copy; entries that are not maps or lack the key are rejected. A link is resolved against its document by the URL rules: an absolute URL stays, a relative one is joined with the document's location, an empty one is the document itself for local files. A text is a URI exactly when it has a scheme, it is local exactly when that scheme is file, and the value of a URI is the last part of its fragment.",
 ["inputs"], "all maps, lists, key and value fields; all pairs of locations and links",
 "Tests convert a few small literals; order, aliasing and the mixed forms are not settled by them.",
 ["utils.py"], [("normalize_to_list", "utils.py"), ("normalize_to_map", "utils.py"), ("resolved_path", "utils.py"), ("get_value_from_uri", "utils.py")],
 observe=["cwl_utils.utils.normalize_to_list", "cwl_utils.utils.normalize_to_map", "cwl_utils.utils.resolved_path"])

prop("P16", "Requirement extraction visits every process of a workflow exactly once, in order",
 "Extracting the Docker requirements of a process yields every Docker requirement among its requirements and then its hints, in order, and for a workflow those of each step followed by those of the process the step runs, recursively, loading linked processes; nothing is skipped or repeated, and likewise for software requirements. Every Docker image that is pulled by name without tag or digest is given the tag latest, all other names are left as they are.",
 ["inputs", "programs"], "all process trees of any depth, with requirements and hints of any kind anywhere",
 "Tests extract from three sample documents; requirements on steps, nested workflows and several per list are not reached.",
 ["docker_extract.py", "cite_extract.py"], [("traverse", "docker_extract.py"), ("extract_docker_requirements", "docker_extract.py"), ("traverse", "cite_extract.py")],
 observe=["cwl_utils.docker_extract.traverse", "cwl_utils.cite_extract.traverse"])

prop("P17", "Image pulling runs exactly the right container engine commands",
 "Saving a Docker image pulls exactly the required image with the chosen engine and, when a directory is given, saves that image to the file in that directory whose name is the image name without slashes and with colons turned to underscores plus .tar, replacing an old file first when forced. Saving with Singularity pulls docker://image into the file of that directory whose name has slashes and colons turned to underscores and the suffix of the installed version (.img for 2.6, .sif from 3.0), does nothing when that file exists and pulling is not forced, and passes --force exactly when forced. A failing engine command always surfaces as an error.",
 ["inputs", "configurations"], "all image names, directories, engines, versions, force flags and states of the target file",
 "Most of the tests for this are skipped without a container engine; combinations of force flag and existing files are not reached.",
 ["image_puller.py"], [("save_docker_image", "image_puller.py"), ("get_image_name", "image_puller.py")],
 observe=["subprocess.run arguments", "DockerImagePuller.get_image_name", "SingularityImagePuller.get_image_name"])

prop("P18", "Container engine version checks agree with the version order",
 "For every flavour and version reported by the engine, the parsed version is the list of its numbers; the predicates for version 3.0, 3.1 and 3.4 hold exactly when the flavour is apptainer with major version at least 1, or the version is at least that one, comparing major and minor numerically. The predicate for 2.6 holds exactly for singularity or singularity-ce with major 2 and minor 6, and the predicate for apptainer exactly for apptainer from 1.0; the version is asked for once and then remembered, and unrecognised output is an error.",
 ["inputs", "configurations"], "all flavours and version numbers",
 "Tests try a few recorded version strings; numeric order (3.10 against 3.4) and other majors are not all covered.",
 ["singularity.py"], [("version predicates", "singularity.py"), ("get_version", "singularity.py")],
 state=[("cached version", "list of numbers of the installed version", "singularity.py"), ("cached flavour", "name of the distribution", "singularity.py")],
 observe=["cwl_utils.singularity.is_version_3_1_or_newer"])

prop("P19", "The generated JSON schema requires what the process requires and is closed",
 "The JSON schema generated for a process has one property per input, an input is required exactly when it has no default and its type does not admit null, and an optional input also accepts null. Each property's type mirrors the CWL type: primitives map to their JSON types, arrays to arrays of the mapped items, enums to strings with the symbols' short names, records to objects with one property per field, unions to a choice of the mapped members. Every definition that is referred to, directly or through other definitions, is present and no other definition is kept.",
 ["inputs", "programs"], "all processes: any inputs of any nested types, defaults and schema definitions, including recursive definitions",
 "Tests validate a few sample job files against schemas of sample workflows; a missing requirement or definition goes unnoticed unless a sample happens to use it.",
 ["inputs_schema_gen.py", "utils.py"], [("JSONSchemaProperty", "inputs_schema_gen.py"), ("get_is_required_from_input_parameter", "inputs_schema_gen.py"), ("slim_definitions", "inputs_schema_gen.py"), ("generate_definition_from_schema", "inputs_schema_gen.py")],
 observe=["cwl_utils.inputs_schema_gen.cwl_to_jsonschema"])

prop("P20", "Splitting a packed document keeps every process and every reference valid",
 "Splitting a packed document writes one file per process, each with the document's version and without its graph id, under the process's id (the given name for main). Inside each process, ids of and references to its own steps and ports, single or in lists, lose exactly the process's prefix, an output of a step also loses the step's, a single source, scatter, item type or format that points into another process becomes that file's name followed by the reference, and a step's run names the file of the process it refers to; references of processes whose id merely starts with this one's id are not confused with its own. Every other part of each process is preserved.",
 ["inputs", "programs"], "all packed documents: any set of process ids (including ids that are prefixes of others), steps, sources and outputs",
 "Tests split three sample documents and check that the main file still runs.",
 ["graph_split.py"], [("rewrite", "graph_split.py"), ("rewrite_id", "graph_split.py"), ("graph_split", "graph_split.py")],
 observe=["files written by cwl_utils.graph_split.graph_split"])

prop("P21", "Expression refactoring helpers preserve ports, references and requirements",
 "Refactoring helpers of every CWL version keep processes intact: the effective expression library is a copy of that of the first inline JavaScript requirement among the requirements of the innermost process that has one; removing the JavaScript requirement removes exactly those requirements and hints, turns an emptied list into none and leaves a command line tool alone when asked to; redirecting an input rewrites exactly the sources equal to the old name in every step and workflow output, single or in lists. An expression tool turned into a command line tool keeps its inputs, outputs, id, label, doc, version and expression library, a stdout shortcut becomes a file output collecting that file while the given tool stays as it was, and an input is looked up by the last part of its id. A text without JavaScript is never taken for an expression, a whole expression keeps its code, and escaping changes exactly the starts of references.",
 ["inputs", "programs"], "all workflows and tools, lists of sources, requirement lists and expressions, for each CWL version",
 "Tests refactor sample workflows and run them; helpers are exercised with a handful of shapes.",
 ["expression_refactor.py", "cwl_v1_0_expression_refactor.py", "cwl_v1_1_expression_refactor.py", "cwl_v1_2_expression_refactor.py"],
 [("find_expressionLib", "cwl_v1_2_expression_refactor.py"), ("remove_JSReq", "cwl_v1_2_expression_refactor.py"), ("replace_wf_input_ref_with_step_output", "cwl_v1_2_expression_refactor.py"), ("etool_to_cltool", "cwl_v1_2_expression_refactor.py")],
 observe=["helpers' results on loaded processes"])

prop("P22", "JavaScript evaluation is bounded in time and isolated between calls",
 "Every JavaScript evaluation ends within its timeout with either a result or an error, also for endless loops, and no evaluation sees state left behind by another one. Concurrent evaluations in several threads do not mix up their results.",
 ["schedules", "histories", "inputs"], "all expressions, timeouts and interleavings of threads",
 "Time limits and interleavings cannot be enumerated by tests.",
 ["sandboxjs.py"], [("exec_js_process", "sandboxjs.py")], observe=["NodeJSEngine.eval"])

prop("P23", "Refactored workflows compute the same outputs as the original",
 "A workflow whose expressions were refactored into steps computes, for every input object on which the original succeeds, the same output object.",
 ["inputs", "programs"], "all workflows and input objects",
 "Only sample workflows are executed by tests.",
 ["cwl_v1_0_expression_refactor.py", "cwl_v1_1_expression_refactor.py", "cwl_v1_2_expression_refactor.py", "expression_refactor.py"],
 [("traverse and process_* functions", "cwl_v1_2_expression_refactor.py")], observe=["outputs of a CWL runner"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
