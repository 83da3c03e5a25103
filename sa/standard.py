"""Per-field facts of a generated parser, in the form they are compared with the CWL standard.

``ref/standard.json`` holds the same facts for parsers generated from the CWL schemas that
cwltool ships (tools/make_standard.py), plus, where the repository's parser was generated from a
newer revision of the specification, the reviewed other value.
"""
from __future__ import annotations

import json
from pathlib import Path

from . import salad
from .engine import callee, fmt, walk

FILE = Path(__file__).resolve().parent.parent / "ref" / "standard.json"


def _loader(attr, ls):
    if attr == "class_":
        return "class tag"
    k = " / ".join(sorted(salad.loader_key(x) for x in ls))
    k = k.replace("('proxy', 'InputBindingLoader')", "CommandLineBinding")
    k = k.replace("('proxy', 'OutputBindingLoader')", "CommandOutputBinding")
    return k.replace(",None,True]", ",None,None]")  # "container": no effect on what is accepted


def _base(f, idkey):
    """What the field's references are resolved against."""
    out = set()
    for t in f.base:
        lit = [x[2][0][1] for x in walk(t) if x[0] == "call" and callee(x).endswith("_expand_url") and x[2] and x[2][0][0] == "const"]
        if lit:
            out.add("scope " + "/".join(sorted(set(map(str, lit)))))
        elif t == ("param", "baseuri"):
            out.add("document")
        else:
            out.add("own id" if idkey else "other")
    return sorted(out)


def _saved_base(t):
    if t is None:
        return None
    if t[0] == "param":
        return "document"
    if t[0] == "attr" and t[1][0] == "param":
        return "own " + t[2]
    return fmt(t)


def class_facts(ci):
    r = {}
    for f in ci.fields.values():
        r[f.attr] = dict(key=sorted(f.keys), loader=_loader(f.attr, f.loaders), required=bool(f.required), base=_base(f, ci.idkey))
    for k, ss in ci.saved.items():
        for s in ss:
            if s.attr in r:
                r[s.attr].setdefault("saved", []).append([k, s.kind, _saved_base(s.base)] + [fmt(x) if x else None for x in s.flags][:2 if s.kind == "uri" else 0])
    for x in r.values():
        x["saved"] = sorted(x.get("saved", []), key=str)
    return r


def facts(parser):
    return {n: class_facts(c) for n, c in parser.classes.items()}


def load():
    return json.loads(FILE.read_text())
