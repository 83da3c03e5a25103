#!/opt/venv/bin/python
"""Write ref/signatures.json: positional parameters (with constant defaults) of the
functions of other packages which cwl-utils calls, so that f(x, y) and f(a=x, b=y)
are the same call to the analysis.  Run once with the environment's interpreter; the
checks only read the table."""
import ast, importlib, inspect, json, sys
from pathlib import Path

here = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(here))
sys.setrecursionlimit(20000)
from sa import index  # noqa: E402


def find(q):
    parts = q.split(".")
    for i in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        try:
            for p in parts[i:]:
                o = getattr(o, p)
            return o
        except AttributeError:
            return None
    return None


def main():
    ix = index.Index("/repo")
    quals = {"builtins.open", "builtins.print", "builtins.sorted", "builtins.enumerate", "builtins.sum"}
    for name in ix.all_module_names():
        m = ix.module(name)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                d = index.dotted(n.func)
                q = ix.resolve(m, d) if d else None
                if q and q.split(".")[0] not in ("cwl_utils", "builtins", "typing"):
                    quals.add(q)
                    mod, _, last = q.rpartition(".")
                    obj = find(mod)
                    if inspect.ismodule(obj) and "." in mod + ".":
                        for k, v in vars(obj).items():
                            if inspect.isfunction(v) and not k.startswith("_") and v.__module__ == mod:
                                quals.add(f"{mod}.{k}")
    for mod in ("os.path", "shutil"):
        quals |= {f"{mod}.{k}" for k, v in vars(importlib.import_module(mod)).items() if inspect.isfunction(v) and not k.startswith("_")}
    quals -= {"schema_salad.runtime.LoadingOptions", "argparse.ArgumentParser", "schema_salad.metaschema.ArraySchema", "logging.getLogger"}
    out = {  # compiled, or taking *args for the parameters of another function
        "schema_salad.sourceline.SourceLine": [["item", "key", "raise_type", "include_traceback"], {}],
        "subprocess.run": [["args"], {}],
        "subprocess.check_output": [["args"], {}],
    }
    for q in sorted(quals):
        o = find(q)
        if o is None:
            continue
        try:
            sig = inspect.signature(o)
        except (ValueError, TypeError):
            continue
        ps, dflt = [], {}
        for p in sig.parameters.values():
            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
                ps.append(p.name)
            elif p.kind == p.VAR_POSITIONAL:
                break
            if p.default is not p.empty and isinstance(p.default, (str, int, type(None), bool)) and p.kind != p.VAR_KEYWORD:
                dflt[p.name] = p.default
        if ps:
            out[q] = [ps, dflt]
    (here / "ref" / "signatures.json").write_text(json.dumps(out, indent=0, sort_keys=True) + "\n")
    print(len(out), "signatures")


main()
