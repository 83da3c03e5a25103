"""Write /verif/ref/standard.json: per-field facts of parsers generated from the CWL schemas.

Runs at development time only.  The CWL schemas come from the installed cwltool, the code generator
from the installed schema_salad (a pure Python copy of it, whose use of black is replaced); the
generated modules are read with the same extraction as the repository's.  Where the repository's
parser differs, REVIEWED has to name the reason, or nothing is written.
"""
import json
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)
from sa import salad, standard  # noqa: E402
from sa.index import Index  # noqa: E402

SITE = Path("/opt/venv/lib/python3.12/site-packages")
NAME_V10 = "v1.0: the name of record, enum and array schemas is declared in the newer text of the specification"
REVIEWED = {  # attribute -> why the repository's value may differ from the schemas cwltool ships
    "cwlVersion": "the repository's parser of one version accepts that version only",
    "default": "codegen variant of the specification: default is typed CWLObjectType instead of Any",
    "hints": "codegen variant of the specification: known hints are parsed, others stay Any",
    "doc": "v1.0: newer text allows a list of strings on record fields",
    "id": "v1.1, v1.2: required identifiers (an anonymous one is generated when missing)",
    "outputSource": "newer text: refScope 1, a workflow output refers to steps of its workflow",
    "run": "codegen variant: the processes are listed instead of the proxy",
    "specs": "v1.0: newer text makes it a list of IRIs",
    "name": NAME_V10, "fields": NAME_V10, "inputBinding": NAME_V10, "outputBinding": NAME_V10,
    "label": NAME_V10, "symbols": NAME_V10, "type_": NAME_V10,
}


def generate(tmp):
    lib = tmp / "lib"
    shutil.copytree(SITE / "schema_salad", lib / "schema_salad", ignore=shutil.ignore_patterns("*.so", "__pycache__", "tests"))
    g = lib / "schema_salad" / "python_codegen.py"
    t = g.read_text()
    a = t.index("def fmt(")
    b = t.index("def md_to_rst")
    t = t[:a] + 'def fmt(text: str, indent: int) -> str:\n    return textwrap.indent(textwrap.dedent(text), " " * indent).rstrip() + "\\n"\n\n\n' + t[b:]
    if "import textwrap" not in t:
        t = t.replace("import sys\n", "import sys\nimport textwrap\n", 1)
    t = re.sub(r"\n    import black\b", "\n    black = None", t)
    g.write_text(t)
    out = tmp / "src" / "cwl_utils" / "parser"
    out.mkdir(parents=True)
    (tmp / "src" / "cwl_utils" / "__init__.py").write_text("")
    (out / "__init__.py").write_text("")
    for n in (0, 1, 2):
        ext = (SITE / "cwltool" / ("extensions.yml" if n == 0 else f"extensions-v1.{n}.yml")).read_text()
        ext = re.sub(r"\$import: \S*CommonWorkflowLanguage\.yml", f"$import: file://{SITE}/cwltool/schemas/v1.{n}/CommonWorkflowLanguage.yml", ext)
        p = tmp / f"ext{n}.yml"
        p.write_text(ext)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "schema_salad.main", "--codegen=python", "--codegen-parent",
                            "https://w3id.org/cwl/salad=schema_salad.metaschema", str(p)],
                           env={"PYTHONPATH": str(lib), "PATH": "/usr/bin:/bin"}, cwd=tmp, capture_output=True, text=True, check=True)
        (out / f"cwl_v1_{n}.py").write_text(r.stdout)
    return tmp


def main():
    with tempfile.TemporaryDirectory() as d:
        std = Index(str(generate(Path(d))))
        table, n, rev = {}, 0, {}
        repo = Index("/repo")
        for v in salad.VERSIONS:
            a, b = (standard.facts(salad.Parser(ix, v)) for ix in (std, repo))
            for c in sorted(set(a) & set(b)):
                row = table.setdefault(f"{v}.{c}", {})
                for f in sorted(set(a[c]) | set(b[c])):
                    x, y = a[c].get(f), b[c].get(f)
                    n += 1
                    row[f] = {"std": x}
                    if x != y:
                        if f not in REVIEWED:
                            raise SystemExit(f"{v}.{c}.{f}: not reviewed\n  {x}\n  {y}")
                        row[f]["reviewed"] = y
                        row[f]["why"] = REVIEWED[f]
                        rev[f] = rev.get(f, 0) + 1
    standard.FILE.write_text(json.dumps(table, indent=0, sort_keys=True) + "\n")
    print(n, "fields,", rev)


main()
