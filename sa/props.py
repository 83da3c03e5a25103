"""Which code each property is anchored in, and which rules decide it.

``anchors`` are patterns over qualified function names; every function they match
is compared with its reviewed reference form (see conform.py).  ``consts`` are
patterns over module-level and class-level values.  ``rules`` are the absolute
rules of rules.py, which do not use the reference at all.
"""
from __future__ import annotations

P = "cwl_utils.parser"
GEN = P + ".cwl_v1_?"
UT = P + ".cwl_v1_?_utils"
RF = "cwl_utils.cwl_v1_?_expression_refactor"
ER = "cwl_utils.expression_refactor"

REC = [f"{GEN}.*.fromDoc", f"{GEN}.*.save", f"{GEN}.*.__init__"]
LOADERS = [f"{GEN}._*Loader.load", f"{GEN}._TypeDSLLoader.resolve", f"{GEN}._*Loader.__init__", f"{GEN}._UnionLoader.add_loaders"]
RUNTIME = [f"{GEN}.{n}" for n in ("_document_load", "_document_load_by_url", "_expand_url", "_load_field")]

# the link checker: what is asked of a link, of the types at its ends and of how they compare
LINKS = [f"{P}.utils.{n}" for n in ("_compare_*", "can_assign_src_to_sink", "check_types", "merge_flatten_type", "param_for_source_id", "type_for_*", "load_step", "static_checker")] + [
    f"{UT}.{n}" for n in ("_compare_*", "can_assign_src_to_sink", "check_all_types", "type_for_*", "_is_*")]
# the evaluation of expressions, from the text to the engine and back
EVAL = ["cwl_utils.expression.*", "cwl_utils.sandboxjs.*"]

PROPS: dict = {
    "C01": dict(
        anchors=REC + [f"{GEN}._{n}Loader.load" for n in ("Record", "IdMap", "Array", "Map", "Union", "Any", "Primitive", "Proxy", "Expression", "Enum", "SecondaryDSL", "TypeDSL", "URI")]
        + [f"{GEN}._load_field", f"{GEN}._document_load", f"{P}.save", f"{GEN}.save*", f"{GEN}._TypeDSLLoader.resolve"],
        consts=[f"{GEN}.*.attrs"],
        rules=["model_fields", "model_init", "model_save", "standard_keys"]),
    "C02": dict(
        anchors=[f"{GEN}.*.fromDoc"] + LOADERS + RUNTIME,
        consts=[f"{GEN}.*.attrs", f"{GEN}.*Loader"],
        rules=["model_required", "model_errors", "standard_required"]),
    "C03": dict(
        anchors=[f"{GEN}.*.__eq__", f"{GEN}.*.__hash__"],
        rules=["model_eq"]),
    "C04": dict(
        anchors=[f"{GEN}.*.fromDoc", f"{GEN}.*.save", f"{GEN}._URILoader.*", f"{GEN}._IdMapLoader.*", f"{GEN}._RecordLoader.load", f"{P}._get_id_from_graph", f"{P}.save"] + RUNTIME,
        consts=[f"{GEN}.uri_*", f"{GEN}.*uri*"],
        rules=["model_scoping", "standard_uris"]),
    "C05": dict(
        anchors=LOADERS + [f"{GEN}._load_field"],
        consts=[f"{GEN}.*"],
        rules=["loader_grammar", "vocab", "standard_types"]),
    "C06": dict(
        anchors=[f"{P}.{n}" for n in ("cwl_version", "load_document*", "save", "version_split", "_get_id_from_graph")]
        + [f"{P}.utils.{n}" for n in ("load_inputfile*", "load_step", "type_for_*", "convert_stdstreams_to_files", "static_checker", "param_for_source_id")]
        + [f"{ER}.{n}" for n in ("refactor", "run", "main", "saveCWL.__call__", "add_input_to_process", "cltool_inputs_to_etool_inputs", "empty_inputs",
                                 "etool_to_cltool", "generate_etool_from_expr2", "get_command_input_parameter", "get_command_line_binding",
                                 "get_inline_javascript_requirement", "load_step", "process_CommandLineTool_output")]
        + [f"{GEN}.load_document*", f"{GEN}.parser_info"]
        + [f"{UT}.load_inputfile*", "cwl_utils.normalizer.run", "cwl_utils.pack.pack", "cwl_utils.graph_split.graph_split"],
        rules=["dispatch"]),
    "C07": dict(
        anchors=[f"{P}.is_process"],
        rules=["type_groups"]),
    "C08": dict(
        anchors=LINKS,
        rules=["collected_reported"]),
    "C09": dict(
        anchors=LINKS,
        rules=["both_operands"]),
    "C10": dict(
        anchors=[f"{P}.utils.convert_stdstreams_to_files", f"{UT}.convert_stdstreams_to_files", f"{RF}.expand_stream_shortcuts", f"{P}.utils.load_inputfile*", f"{UT}.load_inputfile*", f"{UT}._inputfile_load", f"{RF}.traverse",
                 f"{P}.utils.type_for_step_*", f"{UT}.type_for_step_*"]),
    "C11": dict(
        anchors=LINKS),
    "C12": dict(
        anchors=[f"{UT}.content_limit_*", f"{UT}._inputfile_load", f"{UT}.load_inputfile*", f"{P}.utils.load_inputfile*", f"{GEN}._document_load_by_url"],
        consts=["cwl_utils.parser.cwl_v1_?_utils.CONTENT_LIMIT"],
        rules=["bounded_reads"]),
    "C13": dict(
        anchors=["cwl_utils.docker_extract.*", "cwl_utils.cite_extract.*", "cwl_utils.image_puller.*.get_image_name"],
        rules=["both_lists"]),
    "C14": dict(
        anchors=["cwl_utils.image_puller.*", "cwl_utils.docker_extract.*", "cwl_utils.singularity.*", "cwl_utils.utils.singularity_supports_userns"],
        consts=["cwl_utils.singularity.*", "cwl_utils.image_puller.*"],
        rules=["checked_processes"]),
    "C15": dict(
        anchors=["cwl_utils.image_puller.*", "cwl_utils.docker_extract.run", "cwl_utils.singularity.get_version", "cwl_utils.sandboxjs.NodeJSEngine.new_js_proc", "cwl_utils.sandboxjs.NodeJSEngine.check_js_threshold_version",
                 "cwl_utils.utils.singularity_supports_userns"],
        rules=["no_shell", "no_host_code"]),
    "C16": dict(
        anchors=EVAL,
        consts=["cwl_utils.expression.*", "cwl_utils.sandboxjs.*"],
        rules=["js_gate", "js_engine_files"]),
    "C17": dict(
        anchors=EVAL,
        consts=["cwl_utils.sandboxjs.*"],
        rules=["js_processes", "js_engine_files"]),
    "C18": dict(
        anchors=EVAL + ["cwl_utils.utils.bytes2str_in_dicts", "cwl_utils.types.is_*"],
        consts=["cwl_utils.expression.*", "cwl_utils.errors.*", "cwl_utils.sandboxjs.*"]),
    "C19": dict(
        anchors=["cwl_utils.expression.*", "cwl_utils.sandboxjs.*.regex_eval"],
        consts=["cwl_utils.expression.*", "cwl_utils.sandboxjs.*"],
        rules=["scanner_progress"]),
    "C20": dict(
        anchors=["cwl_utils.pack.*", "cwl_utils.utils.load_linked_file", "cwl_utils.utils.resolved_path", "cwl_utils.utils.normalize_*", "cwl_utils.utils._is_github_symbolic_link",
                 "cwl_utils.pack_cli.*", "cwl_utils.schemadef.*"],
        consts=["cwl_utils.pack.*", "cwl_utils.types.built_in_types"]),
    "C21": dict(
        anchors=["cwl_utils.schemadef.*", "cwl_utils.pack.*",
                 "cwl_utils.utils.normalize_to_*", "cwl_utils.utils.load_linked_file", "cwl_utils.utils.resolved_path"],
        consts=["cwl_utils.schemadef.*", "cwl_utils.types.built_in_types", "cwl_utils.errors.*"]),
    "C22": dict(anchors=["cwl_utils.graph_split.*"], consts=["cwl_utils.graph_split.*"]),
    "C23": dict(
        anchors=[f"{ER}.{n}" for n in ("main", "run", "refactor", "arg_parser", "parse_args", "saveCWL.__call__")]
        + ["cwl_utils.normalizer.*", "cwl_utils.pack_cli.*", "cwl_utils.utils.yaml_dumps"],
        consts=["cwl_utils.normalizer.*", "cwl_utils.pack_cli.*", f"{ER}.*"],
        rules=["options_read"]),
    "C24": dict(
        anchors=[f"{RF}.*", f"{ER}.*"],
        exclude=[f"{ER}.{n}" for n in ("main", "run", "arg_parser", "parse_args", "refactor")],
        consts=[f"{RF}.*"],
        rules=["constructor_fields", "lost_changes", "idle_loops"]),
    "C25": dict(
        anchors=[f"{RF}.*", f"{ER}.*"],
        exclude=[f"{ER}.{n}" for n in ("main", "arg_parser", "parse_args")],
        consts=[f"{RF}.*"],
        rules=["expression_positions"]),
    "C26": dict(
        anchors=[], family=[f"{RF}.*", f"{UT}.*", f"{GEN}.*"],
        rules=["siblings"]),
    "C27": dict(
        anchors=["cwl_utils.inputs_schema_gen.*"]
        + [f"cwl_utils.utils.{n}" for n in ("sanitise_schema_field", "to_pascal_case", "is_uri", "is_local_uri", "get_value_from_uri")],
        consts=["cwl_utils.inputs_schema_gen.*"]),
    "C28": dict(anchors=["cwl_utils.file_formats.*", "cwl_utils.utils.aslist"]),
    "C29": dict(
        anchors=[f"cwl_utils.utils.{n}" for n in ("bytes2str_in_dicts", "normalize_to_*", "sanitise_schema_field", "to_pascal_case", "is_uri", "is_local_uri", "get_value_from_uri", "yaml_dumps")]
        + [f"cwl_utils.pack.{n}" for n in ("listify_everything", "normalize_sources", "_normalize")]
        + [f"{GEN}._TypeDSLLoader.*", f"{GEN}._SecondaryDSLLoader.*", f"{GEN}._IdMapLoader.load"],
        consts=["cwl_utils.utils.*"]),
    "C30": dict(
        anchors=RUNTIME + [f"{GEN}.load_document*", f"{P}.load_document*", f"{GEN}._RecordLoader.load", f"{GEN}._UnionLoader.load", f"{GEN}._ArrayLoader.load", f"{GEN}._IdMapLoader.load", f"{GEN}.*.fromDoc",
                           f"{P}.utils.load_step", "cwl_utils.docker_extract.get_process_from_step", "cwl_utils.cite_extract.get_process_from_step", f"{ER}.load_step",
                           "cwl_utils.utils.load_linked_file", "cwl_utils.utils.resolved_path", f"{UT}._inputfile_load"]),
    "C31": dict(
        anchors=["cwl_utils.singularity.get_version", "cwl_utils.utils.singularity_supports_userns", "cwl_utils.sandboxjs.get_js_engine",
                 "cwl_utils.sandboxjs.set_js_engine", "cwl_utils.sandboxjs.get_default_js_engine", "cwl_utils.schemadef.reset_*", "cwl_utils.pack.pack"],
        rules=["global_state"]),
}
