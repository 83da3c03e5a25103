"""Absolute rules: decided on the current tree alone, without the reference."""
from __future__ import annotations

import ast
import re
from dataclasses import dataclass, field

from . import engine as E
from . import salad
from .engine import NONE, callee, contains, fmt, fmt_guards, walk
from .index import Class, Func, Index, Module, dotted

VERSIONS = salad.VERSIONS


@dataclass
class Res:
    text: str
    n: int = 0
    findings: list = field(default_factory=list)
    samples: list = field(default_factory=list)
    extra: dict = field(default_factory=dict)

    def ob(self, sample=None):
        self.n += 1
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)

    def bad(self, rule, construct, where, what, detail=""):
        self.findings.append(dict(rule=rule, construct=construct, where=[where] if isinstance(where, str) else list(where), what=what, detail=detail))


# --------------------------------------------------------------------------------------
# the generated object models
# --------------------------------------------------------------------------------------
def classes(ctx):
    for v in VERSIONS:
        p = ctx.parser(v)
        for c in p.classes.values():
            yield p, c


def _problems(res, c, cats, rule):
    for p in c.problems + [x for f in c.fields.values() for x in f.problems]:
        if p[0] in cats:
            res.bad(f"{rule}-{p[0]}", c.cls.qual, p[2], p[1])


def _doc_name(attr):
    return salad.KEYWORDS.get(attr, attr)


def rule_model_fields(ctx):
    r = Res("every declared key is loaded into exactly one constructor argument, and declared, loaded and saved keys are the same set")
    for p, c in classes(ctx):
        loc = f"{c.cls.module.rel()}:{c.cls.node.lineno}"
        _problems(r, c, ("key", "construct", "default", "extension", "options"), "model")
        keys: dict = {}
        for f in c.fields.values():
            r.ob(f"{c.cls.qual}.{f.attr} <- {sorted(f.keys)}")
            if len(f.keys) > 1:
                r.bad("model-key", c.cls.qual, f.load_locs or loc, f"{f.attr} is loaded from several keys {sorted(f.keys)}")
            for k in f.keys:
                if k in keys:
                    r.bad("model-key", c.cls.qual, f.load_locs or loc, f"key {k!r} is loaded into both {keys[k]} and {f.attr}")
                keys[k] = f.attr
        if c.attrs is not None and set(keys) != c.attrs:
            r.bad("model-declared", c.cls.qual, loc, f"declared and loaded keys differ: {sorted(set(keys) ^ c.attrs)}")
        if set(keys) != set(c.saved):
            r.bad("model-saved", c.cls.qual, loc, f"loaded and saved keys differ: {sorted(set(keys) ^ set(c.saved))}")
        for k, ss in c.saved.items():
            for s in ss:
                if k in keys and s.attr != keys[k]:
                    r.bad("model-saved", c.cls.qual, s.loc or loc, f"key {k!r} is loaded into {keys[k]} but saved from {s.attr}")
    return r


def rule_model_init(ctx):
    r = Res("the constructor keeps each argument under the attribute of its name (or a documented default)")
    for p, c in classes(ctx):
        f = c.cls.methods["__init__"]
        loc = f"{c.cls.module.rel()}:{f.node.lineno}"
        for a in list(c.fields) + list(salad.COMMON):
            vals = c.init.get(a)
            r.ob(f"{c.cls.qual}.__init__: self.{a}")
            if not vals:
                r.bad("model-init", c.cls.qual, loc, f"the constructor does not set {a}")
                continue
            if a == "class_" and a not in c.init_params:
                continue
            if not any(contains(v, ("param", a)) for v, _, _ in vals):
                r.bad("model-init", c.cls.qual, vals[0][2], f"the constructor sets {a} to {fmt(vals[0][0])[:80]}, not to its argument")
            for v, _, l in vals:
                for t in walk(v):
                    if t[0] == "param" and t[1] in c.fields and t[1] != a:
                        r.bad("model-init", c.cls.qual, l, f"the constructor stores argument {t[1]} in attribute {a}")
    return r


def rule_model_save(ctx):
    r = Res("each set attribute is written by save under its own key, under no other condition than being set")
    for p, c in classes(ctx):
        f = c.cls.methods["save"]
        loc = f"{c.cls.module.rel()}:{f.node.lineno}"
        for k, ss in c.saved.items():
            covered = False
            for s in ss:
                r.ob(f"{c.cls.qual}.save: {k!r} from self.{s.attr} as {s.kind}")
                if s.attr is None:
                    continue
                own = ("attr", ("param", f.params()[0]), s.attr)
                extra = []
                for g, pol in s.conds:
                    if g[0] in ("try", "loop", "with"):
                        continue
                    if g == ("isnone", own) and not pol or s.kind == "class" and contains(g, own):
                        continue
                    extra.append((g, pol))
                if not extra:
                    covered = True
                if s.kind == "raw" and s.attr not in ("class_",) and k != "class":
                    r.bad("model-save-form", c.cls.qual, s.loc or loc, f"{k!r} is written without converting the value to its saved form")
            if not covered and any(s.attr is not None for s in ss):
                r.bad("model-save-condition", c.cls.qual, ss[0].loc or loc, f"{k!r} is written only if {fmt_guards(ss[0].conds)[:160]}")
        if not c.ext_saved:
            r.bad("model-save-extension", c.cls.qual, loc, "extension fields are not written by save")
    return r


def rule_model_required(ctx):
    r = Res("a missing required field (one whose type does not admit null) raises, and an optional one does not")
    for p, c in classes(ctx):
        for f in c.fields.values():
            if not f.loaders or f.attr in ("class_",):
                continue
            r.ob(f"{c.cls.qual}.{f.attr} required={f.required}")
            opt = all(_nullable(l) for l in f.loaders)
            if f.attr == c.idkey:
                continue
            if not opt and not f.required:
                r.bad("model-required", c.cls.qual, f.load_locs, f"{f.attr} may be absent although its type {salad.loader_key(f.loaders[0])[:100]} does not admit null")
            if opt and f.required:
                r.bad("model-optional", c.cls.qual, f.load_locs, f"{f.attr} must be present although its type admits null")
    return r


def _nullable(l):
    if l[0] in ("uri", "idmap", "typedsl", "secondarydsl"):
        return any(_nullable(x) for x in l[1:] if isinstance(x, tuple))
    if l[0] == "union":
        return any(_nullable(x) for x in l[1])
    return l == ("prim", "None") or l[0] == "none" or salad.loader_key(l) == "None"


def rule_model_errors(ctx):
    r = Res("every failing field is recorded, every undeclared key reported, the class tag compared, and recorded errors raise before the object is built")
    for p, c in classes(ctx):
        r.n += len(c.fields) + 3
        _problems(r, c, ("errors", "collect", "unknown", "tag"), "model")
    r.samples = ["every record class of the three versions: collection of errors, undeclared keys, class tag"]
    return r


def rule_model_eq(ctx):
    r = Res("__eq__ compares, and __hash__ uses, exactly the loaded fields, for objects of the same class")
    for p, c in classes(ctx):
        f = c.cls.methods.get("__eq__")
        loc = f"{c.cls.module.rel()}:{(f.node if f else c.cls.node).lineno}"
        for t, l in c.eq_problems:
            r.bad("model-eq", c.cls.qual, l, t)
        fs = set(c.fields)
        r.n += 2 * len(fs)
        if len(r.samples) < 3:
            r.samples.append(f"{c.cls.qual}: == and hash over {sorted(fs)}")
        if c.eq is not None and c.eq != fs:
            r.bad("model-eq", c.cls.qual, loc, f"__eq__ leaves out {sorted(fs - c.eq)} or adds {sorted(c.eq - fs)}")
        if c.hash is not None and set(c.hash) != fs:
            r.bad("model-hash", c.cls.qual, loc, f"__hash__ leaves out {sorted(fs - set(c.hash))} or adds {sorted(set(c.hash) - fs)}")
        if getattr(c, "hash_identity", False):
            r.bad("model-hash", c.cls.qual, loc, "__hash__ depends on the object's identity")
    return r


def rule_model_scoping(ctx):
    r = Res("each link field is saved with the scoping flags it is loaded with, relative to the object's own identifier, and identified objects are registered")
    for p, c in classes(ctx):
        f = c.cls.methods["save"]
        loc = f"{c.cls.module.rel()}:{f.node.lineno}"
        selfp = ("param", f.params()[0])
        own = ("attr", selfp, c.idkey) if c.idkey else None
        for fi in c.fields.values():
            if len(fi.loaders) != 1 or fi.attr == "class_":
                continue
            l = fi.loaders[0]
            for k in fi.keys:
                for s in c.saved.get(k, []):
                    r.ob(f"{c.cls.qual}.{fi.attr}: {salad.loader_key(l)[:60]} / {s.kind}{[fmt(x) if x else None for x in s.flags]}")
                    if l[0] == "uri":
                        if s.kind != "uri":
                            r.bad("scoping-kind", c.cls.qual, s.loc or loc, f"link {fi.attr} is not made relative on save")
                            continue
                        want = (("const", l[2]), ("const", l[4]))
                        got = tuple(s.flags[:2])
                        if None not in got and got != want:
                            r.bad("scoping-flags", c.cls.qual, s.loc or loc, f"{fi.attr} is loaded with scoped_id={l[2]}, ref_scope={l[4]} but saved with {fmt(got[0])}, {fmt(got[1])}")
                    elif s.kind == "uri":
                        r.bad("scoping-kind", c.cls.qual, s.loc or loc, f"{fi.attr} is not a link but made relative on save")
                    if s.flags and s.flags[-1] is not None and not contains(s.flags[-1], ("param", "relative_uris")):
                        r.bad("scoping-relative", c.cls.qual, s.loc or loc, f"{fi.attr} is saved without passing on relative_uris")
                    if s.base is not None:
                        if own is not None and fi.attr != c.idkey and not contains(s.base, own):
                            r.bad("scoping-base", c.cls.qual, s.loc or loc, f"{fi.attr} is saved relative to {fmt(s.base)[:60]} instead of the object's own identifier")
                        if (own is None or fi.attr == c.idkey) and not contains(s.base, ("param", "base_url")):
                            r.bad("scoping-base", c.cls.qual, s.loc or loc, f"{fi.attr} is saved relative to {fmt(s.base)[:60]} instead of the enclosing base")
            if c.idkey:
                for b in fi.base:
                    if b is None:
                        continue
                    inner = any(t[0] == "call" and callee(t).endswith("._load_field") for t in walk(b))
                    if fi.attr == c.idkey and inner:
                        r.bad("scoping-load-base", c.cls.qual, fi.load_locs, "the identifier is resolved against itself")
                    if fi.attr != c.idkey and not inner:
                        r.bad("scoping-load-base", c.cls.qual, fi.load_locs, f"{fi.attr} is loaded relative to {fmt(b)[:60]} instead of the object's own identifier")
        if c.idkey:
            r.ob()
            if not c.index_keys:
                r.bad("scoping-index", c.cls.qual, f"{c.cls.module.rel()}:{c.cls.node.lineno}", "identified objects are not registered under their identifier")
    return r


# --------------------------------------------------------------------------------------
# loader grammar and vocabulary
# --------------------------------------------------------------------------------------
def _loader_name(node, mod):
    """The name the schema compiler gives to a loader of this structure."""
    if isinstance(node, ast.Name):
        return node.id
    if not isinstance(node, ast.Call):
        return None
    f = dotted(node.func)
    a = list(node.args)
    kw = {k.arg: k.value for k in node.keywords}

    def arg(i, n):
        return a[i] if i < len(a) else kw.get(n)

    def lit(x):
        try:
            return str(ast.literal_eval(x))
        except Exception:  # noqa: BLE001
            return None

    if f == "_UnionLoader":
        alts = arg(0, "alternates")
        if not isinstance(alts, (ast.Tuple, ast.List)):
            return None
        ns = [_loader_name(x, mod) for x in alts.elts]
        return None if None in ns else "union_of_" + "_or_".join(ns)
    inner = arg(0, "inner" if f != "_ArrayLoader" else "items")
    if f == "_MapLoader":
        inner = arg(0, "values")
    n = _loader_name(inner, mod) if inner is not None else None
    if n is None:
        return None
    if f == "_ArrayLoader":
        return "array_of_" + n
    if f == "_MapLoader":
        return "map_of_" + n
    if f == "_URILoader":
        fl = [lit(arg(i, k)) for i, k in ((1, "scoped_id"), (2, "vocab_term"), (3, "scoped_ref"), (4, "no_link_check"))]
        return None if None in fl else "uri_" + "_".join([n] + fl)
    if f == "_TypeDSLLoader":
        x = lit(arg(1, "refScope"))
        return None if x is None else f"typedsl_{n}_{x}"
    if f == "_SecondaryDSLLoader":
        return "secondaryfilesdsl_" + n
    return None


def rule_loader_grammar(ctx):
    r = Res("each generated loader has the structure its name states; every record loader builds a class of its own version; every record type is reachable from the loaders of documents and input objects")
    for v in VERSIONS:
        p = ctx.parser(v)
        m = p.mod
        for name, node in m.consts.items():
            if not isinstance(node, ast.Call):
                continue
            f = dotted(node.func) or ""
            if not f.endswith("Loader"):
                continue
            loc = f"{m.rel()}:{node.lineno}"
            got = _loader_name(node, m)
            if name.startswith(("union_of_", "array_of_", "map_of_", "uri_", "typedsl_", "secondaryfilesdsl_")):
                if got is None:
                    continue
                r.ob(f"{m.name}.{name}"[:160])
                if got.replace("ProxyLoader", "") != name and got != name and not _dsl_or_plain(name, got):
                    r.bad("loader-structure", f"{m.name}.{name}"[:200], loc, f"the loader is built as {_diffname(name, got)}")
            elif f == "_RecordLoader":
                s = p.loaders.of_name(name)
                r.ob(f"{m.name}.{name} -> {s[1]}")
                if s[1] in m.classes and name != s[1] + "Loader" or s[1] not in m.classes and not s[1].startswith(("schema_salad.", "metaschema.")):
                    r.bad("loader-record", f"{m.name}.{name}", loc, f"{name} builds {s[1]}")
            elif f == "_EnumLoader":
                s = p.loaders.of_name(name)
                r.ob()
                if not s[1]:
                    r.bad("loader-enum", f"{m.name}.{name}", loc, f"{name} has no symbols")
        reach = _reachable(p)
        for c in p.classes:
            r.ob()
            if c not in reach and c not in UNREACHABLE.get(v, ()):
                r.bad("loader-unreachable", f"{m.name}.{c}", f"{m.rel()}:{p.classes[c].cls.node.lineno}", f"no document can contain a {c}: no loader leads to it")
        r.extra[f"reachable_{v}"] = len(reach)
    return r


# abstract in the standard, or only used by the schemas of the standard itself
_ABSTRACT = ("CWLArraySchema", "CWLRecordField", "CWLRecordSchema")
UNREACHABLE = {"v1_0": _ABSTRACT + ("OutputParameter",), "v1_1": _ABSTRACT, "v1_2": _ABSTRACT}


def _dsl_or_plain(name, got):
    """secondaryFiles may be given in the shorthand or in full."""
    inner = name.removeprefix("secondaryfilesdsl_")
    return inner != name and got == f"union_of_{name}_or_{inner}"


def _diffname(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return f"...{b[max(0, i - 30):i + 60]} where its name says ...{a[max(0, i - 30):i + 60]}"


def _reachable(p):
    """Record classes that the loaders of whole documents lead to."""
    m = p.mod
    roots = set()
    for fn in ("load_document", "load_document_by_string", "load_document_by_yaml", "load_document_with_metadata"):
        f = m.funcs.get(fn)
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in m.consts:
                roots.add(n.id)
    ut = p.ix.module(m.name + "_utils")
    if ut is not None:
        for n in ast.walk(ut.tree):
            d = None
            if isinstance(n, ast.Attribute):
                d = dotted(n)
            elif isinstance(n, ast.Name):
                d = n.id
            q = p.ix.resolve(ut, d) if d else None
            if q and q.startswith(m.name + ".") and q[len(m.name) + 1:] in m.consts and "Loader" in q:
                roots.add(q[len(m.name) + 1:])
    proxies = {}
    for st in m.tree.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and dotted(st.value.func) == "_loaders.update":
            for d in st.value.args:
                if isinstance(d, ast.Dict):
                    for k, x in zip(d.keys, d.values):
                        if isinstance(k, ast.Constant):
                            proxies[k.value] = x
    seen, out = set(), set()
    todo = [p.loaders.of_name(x) for x in roots]
    while todo:
        s = todo.pop()
        if not isinstance(s, tuple) or not s or s in seen:
            continue
        seen.add(s)
        if s[0] == "record" and len(s) > 1 and s[1] in p.classes:
            if s[1] not in out:
                out.add(s[1])
                for f in p.classes[s[1]].fields.values():
                    todo.extend(f.loaders)
        elif s[0] == "ref" and len(s) == 2:
            todo.append(p.loaders.memo.get(s[1], ()))
        elif s[0] == "proxy" and len(s) == 2 and s[1] in proxies:
            todo.append(p.loaders.of_node(proxies[s[1]]))
        else:
            todo.extend(x for x in s if isinstance(x, tuple))
            for x in s:
                if isinstance(x, tuple):
                    todo.extend(y for y in x if isinstance(y, tuple))
    return out


def rule_vocab(ctx):
    r = Res("the vocabulary and its reverse are mutually inverse and contain every record type and enumeration symbol")
    from . import conform
    for v in VERSIONS:
        p = ctx.parser(v)
        m = p.mod
        mc = ctx.conf._modcalls(conform.Engine_(ctx.ix), m)
        voc = {k[2][1]: x for k, (x, _) in mc.items() if k[0] == "_vocab" and k[2][0] == "const"}
        rvoc = {k[2][1]: x for k, (x, _) in mc.items() if k[0] == "_rvocab" and k[2][0] == "const"}
        line = {k[2]: f"{m.rel()}:{ln}" for k, (_, ln) in mc.items()}
        if not voc:
            r.extra[f"not_read_{v}"] = True
            continue
        for k, x in voc.items():
            r.ob(f"{v}: {k} <-> {fmt(x)[:60]}")
            if rvoc and x[0] == "const" and rvoc.get(x[1]) != ("const", k):
                r.bad("vocab-inverse", f"{m.name}._rvocab", line.get(("const", k), m.rel()), f"{k} maps to {x[1]}, which does not map back")
        for k, x in rvoc.items():
            if x[0] == "const" and voc.get(x[1]) != ("const", k):
                r.bad("vocab-inverse", f"{m.name}._vocab", line.get(("const", k), m.rel()), f"{k} maps to {x[1]}, which does not map back")
        terms = set(p.classes)
        for name, node in m.consts.items():
            if isinstance(node, ast.Call) and dotted(node.func) == "_EnumLoader":
                s = p.loaders.of_name(name)
                terms |= {x for x in s[1]}
        for t in sorted(terms):
            r.ob()
            if t not in voc and t not in NOT_IN_VOCAB:
                r.bad("vocab-missing", f"{m.name}._vocab", m.rel(), f"{t} is missing from the vocabulary")
    return r


NOT_IN_VOCAB: set = set()


# --------------------------------------------------------------------------------------
# version dispatch
# --------------------------------------------------------------------------------------
_VER = re.compile(r"(?:^|\.)cwl_(v1_[012])(?:_utils|_expression_refactor)?\.([A-Za-z_0-9.]+)$")
_VLIT = re.compile(r"^(?:v|https://w3id\.org/cwl/cwl#v)(1\.[012])(?:\..*)?$")


def version_of(q):
    m = _VER.search(q or "")
    return (m.group(1), m.group(2)) if m else (None, None)


def _vlit(t):
    if t[0] == "const" and isinstance(t[1], str):
        m = _VLIT.match(t[1])
        if m:
            return "v" + m.group(1).replace(".", "_")
    return None


def _guard_versions(guards):
    """Versions that the conditions of an event establish, and those they exclude."""
    pos, neg, ops = [], set(), set()
    for g, pol in guards:
        vs = None
        if g[0] == "eq":
            vs = {_vlit(g[1]), _vlit(g[2])} - {None}
        elif g[0] == "oneof":
            vs = {_vlit(x) for x in g[2]} - {None}
        elif g[0] == "in" and g[2][0] == "new":
            vs = {_vlit(x) for x in g[2][3]} - {None}
        elif g[0] == "isinst":
            vs = {version_of(x)[0] for x in g[2]} if all(version_of(x)[0] for x in g[2]) else None
        if not vs:
            continue
        ops.add(g[0])
        if pol:
            pos.append(vs)
        else:
            neg |= vs
    return pos, neg, ops


def _neutral_functions(ix):
    for n in ix.all_module_names():
        if re.search(r"cwl_v1_[012]", n) or ".tests" in n:
            continue
        m = ix.module(n)
        for f in m.funcs.values():
            yield f
        for c in m.classes.values():
            yield from c.methods.values()


def rule_dispatch(ctx):
    r = Res("a call into a version's modules that is made under a version test is made for that version; a version-dispatching function covers every version that has the operation and raises for any other")
    ix = ctx.ix
    for f in _neutral_functions(ix):
        src = ast.dump(f.node)
        if "v1.0" not in src and "v1.1" not in src and "v1.2" not in src and "cwl_v1_" not in src:
            continue
        try:
            res = E.Engine(ix, inline=lambda q: False).run(f)
        except Exception as e:  # noqa: BLE001
            r.extra.setdefault("not_judged", []).append(f"{f.qual}: {type(e).__name__}")
            continue
        fam: dict = {}
        strings = False
        raises = []
        for e in res.events:
            pos, neg, ops = _guard_versions(e.guards)
            if e.kind == "raise" and ops & {"eq", "oneof", "in"}:
                raises.append((pos, neg))
            if e.kind != "call":
                continue
            v, name = version_of(callee(e.term))
            if v is None:
                continue
            if not pos and not neg:
                continue
            allowed = set(VERSIONS)
            for s in pos:
                allowed &= s
            allowed -= neg if not pos else set()
            r.ob(f"{f.qual}: {v}.{name} under {sorted(allowed)}")
            string = bool(ops & {"eq", "oneof", "in"})
            if not pos and not string:
                continue
            strings |= string
            if v not in allowed or (len(allowed) > 1 and pos):
                r.bad("dispatch-version", f.qual, e.loc(), f"{name} of {v} is called for {', '.join(sorted(allowed)) or 'no version'}", fmt_guards(e.guards)[:300])
            fam.setdefault(name, {}).setdefault(v, []).append(e)
        for name, vs in fam.items():
            have = {v for v in VERSIONS if _has(ix, v, name, vs)}
            if len(vs) >= 1 and have - set(vs) and not re.match(r"[A-Z]", name.split(".")[-1]):
                ev = next(iter(vs.values()))[0]
                r.bad("dispatch-incomplete", f.qual, ev.loc(), f"{name} is dispatched for {', '.join(sorted(vs))} but not for {', '.join(sorted(have - set(vs)))}")
        fns = {n: vs for n, vs in fam.items() if not re.match(r"[A-Z]", n.split(".")[-1])}
        if strings and any(len(vs) == 3 for vs in fns.values()):
            r.ob(f"{f.qual}: other versions are refused")
            evs = {v for vs in fns.values() for v in vs}
            if not any(evs <= neg for _, neg in raises) and not _raises_anyway(res, evs):
                r.bad("dispatch-fallthrough", f.qual, f"{f.module.rel()}:{f.node.lineno}", "a version other than v1.0, v1.1 and v1.2 is not refused")
    for n in ix.all_module_names():
        m = ix.module(n)
        for d in ast.walk(m.tree):
            if isinstance(d, ast.Dict):
                for k, x in zip(d.keys, d.values):
                    lit = _vlit(("const", k.value)) if isinstance(k, ast.Constant) else None
                    q = ix.resolve(m, dotted(x)) if lit and dotted(x) else None
                    mv = re.search(r"cwl_(v1_[012])", q or "")
                    if mv:
                        r.ob()
                        if mv.group(1) != lit:
                            r.bad("dispatch-table", n, f"{m.rel()}:{d.lineno}", f"{k.value} is mapped to {q}")
    return r


def _raises_anyway(res, evs):
    """A raise or an error status that is reached when none of the versions matched."""
    for e in res.events:
        err = e.kind == "raise" or e.kind == "return" and e.term[0] == "const" and isinstance(e.term[1], int) and e.term[1] != 0
        if err and _guard_versions(e.guards)[1] >= evs:
            return True
    return False


def _has(ix, v, name, vs):
    some = next(iter(vs.values()))[0]
    q = callee(some.term)
    w = re.sub(r"cwl_v1_[012]", "cwl_" + v, q)
    return ix.lookup(w) is not None


# --------------------------------------------------------------------------------------
# version-spanning groups
# --------------------------------------------------------------------------------------
GROUP_EXCEPTIONS = {
    # group: members of another name, with the version they stand for
    "OutputParameter": {"v1_0": {"CommandOutputParameter", "ExpressionToolOutputParameter", "WorkflowOutputParameter"}},
    "WorkflowInputParameter": {"v1_0": {"InputParameter"}},
    "ScatterWorkflowStep": {v: {"WorkflowStep"} for v in VERSIONS},
    "Process": {v: {"Workflow", "CommandLineTool", "ExpressionTool"} | ({"Operation"} if v == "v1_2" else set()) for v in VERSIONS},
    "LoopWorkflowStep": {v: set() for v in VERSIONS},
    "is_process": {v: {"Process"} for v in VERSIONS},
}


def _members(ix, m, node, depth=0):
    """Classes named by a union, tuple or alias expression; None if not evaluable."""
    if depth > 8 or node is None:
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitOr, ast.Add)):
        a, b = _members(ix, m, node.left, depth + 1), _members(ix, m, node.right, depth + 1)
        return None if a is None or b is None else a | b
    if isinstance(node, (ast.Tuple, ast.List)):
        out = set()
        for x in node.elts:
            s = _members(ix, m, x.value if isinstance(x, ast.Starred) else x, depth + 1)
            if s is None:
                return None
            out |= s
        return out
    if isinstance(node, ast.Subscript) and (dotted(node.value) or "").split(".")[-1] in ("Union", "Optional"):
        return _members(ix, m, node.slice, depth + 1)
    if isinstance(node, ast.Call) and (dotted(node.func) or "").split(".")[-1] in ("get_args", "tuple", "list", "set", "frozenset") and len(node.args) == 1:
        return _members(ix, m, node.args[0], depth + 1)
    if isinstance(node, (ast.GeneratorExp, ast.ListComp)) and len(node.generators) == 1:
        g = node.generators[0]
        if isinstance(g.iter, (ast.Tuple, ast.List)) and isinstance(node.elt, ast.Attribute) and isinstance(node.elt.value, ast.Name) and isinstance(g.target, ast.Name) and node.elt.value.id == g.target.id and not g.ifs:
            out = set()
            for x in g.iter.elts:
                q = ix.resolve(m, dotted(x) or "")
                if not q:
                    return None
                out.add(ix.canonical(f"{q}.{node.elt.attr}"))
            return out
        return None
    d = dotted(node)
    if d:
        if "." not in d and d in m.consts and m.multi.get(d, 1) == 1:
            return _members(ix, m, m.consts[d], depth + 1)
        q = ix.resolve(m, d)
        return {q} if q else None
    return None


def rule_type_groups(ctx):
    r = Res("each group named after a class contains that class of every version that defines it, and no class of another name except the listed counterparts")
    ix = ctx.ix
    m = ix.module("cwl_utils.parser")
    mods = {v: ix.module(salad.modname(v)) for v in VERSIONS}
    known = ctx.conf.ref.module("cwl_utils.parser").consts
    for name, node in m.consts.items():
        mem = _members(ix, m, node)
        if name not in known or not mem or not any(version_of(q)[0] for q in mem):
            continue
        base = name.removesuffix("Types") if name.removesuffix("Types") in m.consts or name.endswith("Types") else name
        _check_group(r, ix, mods, base, name, mem, f"{m.rel()}:{node.lineno}", m.name)
    f = m.funcs.get("is_process")
    if f is not None:
        res = E.Engine(ix, inline=lambda q: q.startswith("cwl_utils.parser.") and "cwl_v1" not in q).run(f)
        mem = set()
        for g, v in res.returns:
            for t in list(walk(v)) + [t for c, _ in g for t in walk(c)]:
                if t[0] == "isinst":
                    for q in t[2]:
                        mem |= {ix.canonical(q)}
        if any(version_of(q)[0] for q in mem):
            ok = True
            for v, mod in mods.items():
                for c in ("Workflow", "CommandLineTool", "ExpressionTool", "Operation"):
                    k = mod.classes.get(c)
                    if k is None:
                        continue
                    r.ob(f"is_process accepts {v}.{c}")
                    if not ({x.qual for x in ix.mro(k)} & mem):
                        r.bad("group-missing", "cwl_utils.parser.is_process", f"{m.rel()}:{f.node.lineno}", f"is_process does not accept {k.qual}")
        else:
            r.extra["is_process"] = "not read"
    return r


def _check_group(r, ix, mods, base, name, mem, loc, mn):
    exc = GROUP_EXCEPTIONS.get(base, {})
    got = {v: {version_of(q)[1] for q in mem if version_of(q)[0] == v} for v in VERSIONS}
    for v, mod in mods.items():
        want = exc[v] if v in exc else ({base} if base in mod.classes else set())
        for c in sorted(want):
            r.ob(f"{name}: {v}.{c}")
            if c not in got[v]:
                r.bad("group-missing", f"{mn}.{name}", loc, f"{name} lacks {c} of {v}")
        for c in sorted(got[v] - want):
            r.bad("group-foreign", f"{mn}.{name}", loc, f"{name} contains {c} of {v}, which is not of its kind")


# --------------------------------------------------------------------------------------
# the CWL standard as an independent oracle
# --------------------------------------------------------------------------------------
def _standard(ctx, r, rule, pick, say):
    from . import standard
    if not hasattr(ctx, "_std"):
        ctx._std = standard.load(), {v: standard.facts(ctx.parser(v)) for v in VERSIONS}
    table, now = ctx._std
    for v in VERSIONS:
        p = ctx.parser(v)
        for name, row in now[v].items():
            want = table.get(f"{v}.{name}")
            if want is None:
                continue
            cls = p.classes[name]
            for f, x in row.items():
                e = want.get(f)
                if e is None:
                    continue
                got = pick(x)
                if got is None or "unknown" in str(got):
                    continue
                ok = [pick(e[k]) for k in ("std", "reviewed") if e.get(k)]
                r.ob(f"{v}.{name}.{f}: {str(got)[:80]}")
                if got not in ok:
                    fi = cls.fields[f]
                    loc = fi.load_locs or f"{p.mod.rel()}:{cls.cls.node.lineno}"
                    r.bad(rule, cls.cls.qual, loc, f"{f}: {say(got)}, where CWL {v.replace('_', '.')} has {say(ok[0]) if ok else 'no such field'}")
    return r


def rule_standard_types(ctx):
    r = Res("the loader of each field accepts what the field's type in the CWL schema admits (independently generated from the schemas shipped with cwltool)")
    return _standard(ctx, r, "standard-type", lambda x: x["loader"] or None, lambda g: f"accepts {g[:200]}")


def rule_standard_required(ctx):
    r = Res("the fields that must be present are those the CWL schema requires")
    return _standard(ctx, r, "standard-required", lambda x: [x["required"]] if x["loader"] else None, lambda g: "is required" if g[0] else "is optional")


def rule_standard_keys(ctx):
    r = Res("each attribute is loaded from and saved under the key the CWL schema gives the field")
    return _standard(ctx, r, "standard-key", lambda x: [x["key"], sorted({s[0] for s in x["saved"]})] if x["saved"] and x["key"] else None, lambda g: f"key {g[0]} / saved as {g[1]}")


def rule_standard_uris(ctx):
    r = Res("each field's references are resolved against, and on saving relativised to, the scope the CWL schema defines")
    return _standard(ctx, r, "standard-scope", lambda x: [x["base"], x["saved"]] if x["saved"] and x["base"] and x["base"] != ["other"] else None, lambda g: f"is resolved in {g[0]} and saved as {[s[1:] for s in g[1]]}")
