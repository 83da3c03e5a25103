"""Writes /verif/MANIFEST.json from the property table."""
import json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
from sa.props import PROPS  # noqa: E402

EFF = "effect comparison of each anchor function (calls, stores, results and errors with path conditions, from a symbolic-term dataflow over the syntax tree) with its reviewed reference form"
TECH = {
    "C01": "generated-model analysis (declared/loaded/stored/saved field sets by dataflow) + effect comparison",
    "C02": "generated-model analysis (error collection on every field path) + effect comparison",
    "C03": "generated-model analysis (fields compared and hashed) + effect comparison",
    "C04": "generated-model analysis (scope flags of load and save paired per field) + effect comparison",
    "C05": "loader grammar built from the source and compared with its naming oracle; vocabulary inversion; reachability",
    "C06": "version-dispatch analysis over guards + effect comparison",
    "C07": "type-group membership query over aliases and tuples + effect comparison",
    "C08": "accumulator-to-raise dataflow lint + effect comparison",
    "C09": "operand lint on type relations + effect comparison",
    "C12": "constant-bound query over stream reads + effect comparison",
    "C13": "paired-list query + effect comparison",
    "C14": "checked-process and exception-flow lint + effect comparison",
    "C15": "call-site query over process creation and code evaluation + effect comparison",
    "C16": "guard analysis of engine calls, syntax-tree rules for the node scripts + effect comparison",
    "C17": "process and timer typestate lint, syntax-tree rules for the node scripts + effect comparison",
    "C19": "loop-progress path analysis + effect comparison",
    "C23": "option use query + effect comparison",
    "C24": "constructor signature check of every generated object + effect comparison",
    "C26": "three-way comparison of the effect differences of version siblings",
    "C31": "global-state effect analysis (module, class and default-argument state) + effect comparison",
}
NA = {
    "C32": "Equality of the outputs of two workflows for all inputs is a property of executing them under a CWL runner with arbitrary tools; no static argument over this repository's source can bound it. The structural part (connectedness of what the refactorer adds, visits, signals) is claimed as C24 and C25.",
    "C33": "What an expression evaluates to is decided by the node runtime, which is outside the analysed source; the static part (which text, context and library are sent, how the answer is decoded, gating, timeouts) is claimed as C16 to C19.",
}
NOTE = ("Decided from the current source only. Rules stated over the whole construct set are exact for the constructs they model; the effect comparison covers each anchored function relative to a form that was reviewed by hand "
        "and reports a difference only if the two forms can be told apart by their effects. Trusted: the extractor, third-party libraries, Python semantics as modelled; constructs it cannot model are listed under not_judged in the evidence and not decided.")
checks = []
for pid, s in PROPS.items():
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       technique="static analysis: " + TECH.get(pid, EFF), level="other", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 -m compileall -q sa check.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
EOF=0
