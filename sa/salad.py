"""Extraction of the per-class, per-field behaviour of a generated CWL parser module.

Everything here is read off the events the abstract interpreter reports for the
five methods of each class, so it does not depend on how the code is laid out
(inline, through helpers, with other local names, ...).
"""
from __future__ import annotations

import ast
from dataclasses import dataclass, field
from typing import Optional

from .engine import (
    NONE, Engine, Event, Term, alternatives, callee, contains, fmt, fmt_guards, gated, strip, walk,
)
from .index import Class, Func, Index, Module, dotted

VERSIONS = ("v1_0", "v1_1", "v1_2")
COMMON = ("extension_fields", "loadingOptions")
KEYWORDS = {"in_": "in", "type_": "type", "class_": "class"}


def modname(v: str) -> str:
    return f"cwl_utils.parser.cwl_{v}"


@dataclass
class Field:
    attr: str
    keys: set = field(default_factory=set)
    loaders: list = field(default_factory=list)  # structural loader terms
    loader_names: list = field(default_factory=list)
    required: bool = False
    load_locs: list = field(default_factory=list)
    value: Optional[Term] = None
    problems: list = field(default_factory=list)  # (rule, text, loc)
    base: set = field(default_factory=set)


@dataclass
class Saved:
    key: str
    kind: str  # "value" | "uri" | "class"
    attr: Optional[str]
    base: Optional[Term]
    flags: tuple
    conds: list
    loc: str = ""
    term: Optional[Term] = None


class ClassInfo:
    def __init__(self, cls: Class):
        self.cls = cls
        self.name = cls.node.name
        self.fields: dict[str, Field] = {}
        self.saved: dict[str, list] = {}
        self.attrs: Optional[set] = None
        self.init: dict[str, list] = {}  # attribute -> value terms
        self.init_params: list = []
        self.eq: Optional[set] = None
        self.eq_problems: list = []
        self.hash: Optional[list] = None
        self.problems: list = []  # (rule, text, loc)
        self.idkey: Optional[str] = None
        self.n_events = 0
        self.index_keys: list = []


class Loaders:
    """Structural form of the loader constants of one module."""

    def __init__(self, ix: Index, mod: Module):
        self.ix, self.mod = ix, mod
        self.memo: dict = {}
        self.busy: set = set()
        self.added: dict = {}
        for st in mod.tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                f = st.value.func
                if isinstance(f, ast.Attribute) and f.attr == "add_loaders" and isinstance(f.value, ast.Name):
                    self.added.setdefault(f.value.id, []).extend(st.value.args)

    def of_name(self, name: str):
        if name in self.memo:
            return self.memo[name]
        if name in self.busy:
            return ("ref", name)
        node = self.mod.consts.get(name)
        if node is None:
            return ("unknown", name)
        self.busy.add(name)
        try:
            v = self.of_node(node)
            for extra in self.added.get(name, []):
                more = tuple(self.of_node(x) for x in getattr(extra, "elts", []))
                if v[0] == "union":
                    v = ("union", _dedupe(v[1] + more))
        finally:
            self.busy.discard(name)
        self.memo[name] = v
        return v

    def lit(self, node):
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, (ast.Tuple, ast.List)):
            return tuple(self.lit(x) for x in node.elts)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return -self.lit(node.operand)
        return ast.unparse(node)

    def of_node(self, node):
        if isinstance(node, ast.Name):
            q = self.ix.resolve(self.mod, node.id)
            if q and q.startswith(self.mod.name + "."):
                return self.of_name(q[len(self.mod.name) + 1:])
            return ("unknown", node.id)
        if isinstance(node, ast.Call):
            f = dotted(node.func)
            args = list(node.args)
            kw = {k.arg: k.value for k in node.keywords}

            def arg(i, n):
                if i < len(args):
                    return args[i]
                return kw.get(n)

            if f == "_PrimitiveLoader":
                t = arg(0, "tp")
                return ("prim", tuple(sorted(ast.unparse(x) for x in t.elts)) if isinstance(t, ast.Tuple) else (_prim(t),))
            if f == "_AnyLoader":
                return ("any",)
            if f == "_ArrayLoader":
                return ("array", self.of_node(arg(0, "items")))
            if f == "_MapLoader":
                return ("map", self.of_node(arg(0, "values"))) + tuple(self.lit(x) if x is not None else None for x in (arg(2, "container"), arg(3, "no_link_check")))
            if f == "_UnionLoader":
                a = arg(0, "alternates")
                return ("union", _dedupe(tuple(self.of_node(x) for x in a.elts)))
            if f == "_EnumLoader":
                return ("enum", tuple(sorted(str(x) for x in self.lit(arg(0, "symbols")))))
            if f == "_RecordLoader":
                c = arg(0, "classtype")
                q = self.ix.resolve(self.mod, dotted(c) or "") or ast.unparse(c)
                return ("record", q.rsplit(".", 1)[-1] if q.startswith(self.mod.name + ".") else q) + tuple(self.lit(x) if x is not None else None for x in (arg(1, "container"), arg(2, "no_link_check")))
            if f == "_ExpressionLoader":
                return ("expr",)
            if f == "_SecondaryDSLLoader":
                return ("secondarydsl", self.of_node(arg(0, "inner")))
            if f == "_URILoader":
                return ("uri", self.of_node(arg(0, "inner"))) + tuple(self.lit(arg(i, n)) if arg(i, n) is not None else None for i, n in ((1, "scoped_id"), (2, "vocab_term"), (3, "scoped_ref"), (4, "no_link_check")))
            if f == "_TypeDSLLoader":
                return ("typedsl", self.of_node(arg(0, "inner"))) + tuple(self.lit(arg(i, n)) for i, n in ((1, "refScope"), (2, "salad_version")))
            if f == "_IdMapLoader":
                return ("idmap", self.of_node(arg(0, "inner"))) + tuple(self.lit(arg(i, n)) for i, n in ((1, "mapSubject"), (2, "mapPredicate")))
            if f == "_ProxyLoader":
                return ("proxy", self.lit(arg(0, "name")))
            # helper that builds a loader: give it up to the engine
            return ("call", f, tuple(ast.unparse(a) for a in node.args))
        return ("unknown", ast.unparse(node)[:80])

    def of_term(self, t: Term):
        """Structural loader of an engine term (a global or a constructor call)."""
        if t[0] == "global" and t[1].startswith(self.mod.name + "."):
            return self.of_name(t[1][len(self.mod.name) + 1:])
        if t[0] == "attr" or t[0] == "global":
            return ("unknown", fmt(t))
        return ("unknown", fmt(t))


def _prim(t):
    s = ast.unparse(t)
    return {"type(None)": "None", "NoneType": "None"}.get(s, s)


def _dedupe(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return tuple(out)


def loader_key(s) -> str:
    """Readable, order-insensitive rendering of a structural loader."""
    k = s[0]
    if k == "prim":
        return "|".join(s[1])
    if k == "any":
        return "Any"
    if k == "array":
        return f"[{loader_key(s[1])}]"
    if k == "map":
        return f"map<{loader_key(s[1])}>"
    if k == "union":
        flat = []
        todo = list(s[1])
        while todo:
            x = todo.pop(0)
            if x[0] == "union":
                todo = list(x[1]) + todo
            else:
                flat.append(loader_key(x))
        return "(" + " | ".join(sorted(set(flat))) + ")"
    if k == "enum":
        return "enum{" + ",".join(s[1]) + "}"
    if k == "record":
        return s[1] + ("" if s[2:] == (None, None) else str(s[2:]))
    if k == "expr":
        return "Expression"
    if k == "secondarydsl":
        return f"secondary({loader_key(s[1])})"
    if k == "uri":
        return f"uri[{s[2]},{s[3]},{s[4]},{s[5]}]({loader_key(s[1])})"
    if k == "typedsl":
        return f"typedsl[{s[2]},{s[3]}]({loader_key(s[1])})"
    if k == "idmap":
        return f"idmap[{s[2]},{s[3]}]({loader_key(s[1])})"
    return str(s)


def union_order(s) -> list:
    """Ordered alternatives, for order-sensitive comparisons."""
    k = s[0]
    if k == "union":
        return [union_order(x) for x in s[1]]
    if k in ("uri", "typedsl", "idmap", "array", "map", "secondarydsl"):
        return [k, union_order(s[1])]
    return [loader_key(s)]


def is_doc(t: Term, docname: str = "doc") -> bool:
    if t == ("param", docname):
        return True
    if t[0] == "call" and callee(t) in ("copy.copy", "copy.deepcopy", "builtins.dict", ".copy") and t[2][:1]:
        return is_doc(t[2][0], docname)
    if t[0] == "call" and callee(t) == ".copy":
        return is_doc(t[1][1], docname)
    if t[0] in ("ite",):
        return is_doc(t[2], docname) and is_doc(t[3], docname)
    return False


def doc_key(t: Term, docname: str = "doc") -> Optional[str]:
    """Key k when the term is the document's value at k."""
    if t[0] in ("get", "item") and is_doc(t[1], docname) and t[2][0] == "const" and isinstance(t[2][1], str):
        return t[2][1]
    return None


def exc_name(t: Term) -> Optional[str]:
    if t[0] == "call" and t[1][0] == "global":
        return t[1][1].rsplit(".", 1)[-1]
    if t[0] == "global":
        return t[1].rsplit(".", 1)[-1]
    if t[0] == "exc":
        return "|".join(x.rsplit(".", 1)[-1] for x in t[1])
    if t[0] == "call" and t[1][0] == "attr":
        return exc_name(t[1][1]) if t[1][2] in ("with_sourceline", "with_traceback", "makeError") else None
    return None


CATCHERS = {"ValidationException", "SchemaSaladException", "Exception", "BaseException"}


def catches_validation(classes) -> bool:
    return any(c.rsplit(".", 1)[-1] in CATCHERS for c in classes)


class Parser:
    def __init__(self, ix: Index, version: str):
        self.ix = ix
        self.version = version
        self.mod = ix.module(modname(version))
        if self.mod is None:
            raise LookupError(f"parser module {modname(version)} not found")
        self.loaders = Loaders(ix, self.mod)
        known = set(self.mod.classes) | {
            "_load_field", "_expand_url", "_document_load", "_document_load_by_url", "load_document",
        }
        self.opaque = {f"{self.mod.name}.{n}" for n in known}
        self.eng = Engine(ix, inline=self._inline)
        self.classes: dict[str, ClassInfo] = {}
        for c in self.mod.classes.values():
            if "fromDoc" in c.methods and "save" in c.methods:
                self.classes[c.node.name] = self._class(c)

    def _inline(self, q: str) -> bool:
        return q.startswith(self.mod.name + ".") and q not in self.opaque and q.rsplit(".", 1)[-1] not in ("fromDoc", "load", "__init__")

    # ------------------------------------------------------------------
    def _class(self, c: Class) -> ClassInfo:
        ci = ClassInfo(c)
        self._attrs(ci)
        self._init(ci)
        self._from_doc(ci)
        self._save(ci)
        self._eq(ci)
        self._hash(ci)
        return ci

    def _loc(self, e: Event) -> str:
        return e.loc()

    def _attrs(self, ci):
        node = ci.cls.attrs.get("attrs")
        if node is None:
            return
        t = self.eng._literal(self.mod, node)
        if t is not None and t[0] == "new":
            ci.attrs = {x[1] for x in t[3]}

    def _init(self, ci):
        f = ci.cls.methods.get("__init__")
        if f is None:
            return
        r = self.eng.run(f)
        ci.n_events += len(r.events)
        a = f.node.args
        ci.init_params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
        selfp = ("param", f.params()[0])
        for e in r.of("store_attr"):
            if e.base == selfp:
                ci.init.setdefault(e.name, []).append((e.value, e.guards, self._loc(e)))

    def _from_doc(self, ci):
        f = ci.cls.methods["fromDoc"]
        r = self.eng.run(f)
        ci.n_events += len(r.events)
        ps = f.params()
        clsp = ("param", ps[0])
        docname = ps[1]
        ctor = [e for e in r.of("call") if e.term[1] in (clsp, ("global", ci.cls.qual))]
        if len(ctor) != 1:
            ci.problems.append(("construct", f"{ci.name}.fromDoc builds {len(ctor)} objects of its class", f.module.rel()))
            if not ctor:
                return
        ctor_e = ctor[-1]
        kwargs = dict(ctor_e.term[3])
        for n, v in zip(ci.init_params, ctor_e.term[2]):
            kwargs[n] = v
        # the error list: what the final raise carries
        errs = None
        final = None
        for e in r.of("raise"):
            if exc_name(e.term) != "ValidationException":
                continue
            for g, pol in e.guards:
                if pol and g[0] in ("new", "phi", "ite") and contains(e.term, g):
                    errs, final = g, e
        if errs is None:
            ci.problems.append(("errors", f"{ci.name}.fromDoc never raises the errors it collects", f.module.rel()))
        else:
            # conditions whose negation raises an error anyway do not weaken the final raise
            raising = {x.guards[-1] for x in r.of("raise") if x.guards}
            extra = [(g, p) for g, p in final.guards if not (g == errs and p) and (g, not p) not in raising]
            extra = [x for x in extra if x[0][0] not in ("loop", "try", "except")]
            if extra:
                ci.problems.append(("errors", f"{ci.name}.fromDoc raises its errors only if {fmt_guards(extra)}", final.loc()))
            if not any(g == errs and not p for g, p in ctor_e.guards):
                ci.problems.append(("errors", f"{ci.name}.fromDoc builds the object without having checked its errors", ctor_e.loc()))
        rets = [v for _, v in r.returns]
        for v in rets:
            if not any(x == ctor_e.term for x in alternatives(v)):
                ci.problems.append(("construct", f"{ci.name}.fromDoc returns {fmt(v)[:80]} instead of the object built", f.module.rel()))
        # field loads
        loads = [e for e in r.of("call") if callee(e.term) == f"{self.mod.name}._load_field"]
        by_term = {}
        for e in loads:
            by_term.setdefault(e.term, []).append(e)
        idx = ("attr", ("param", "loadingOptions"), "idx")
        for e in r.of("store_item"):
            if e.base[0] == "attr" and e.base[2] == "idx":
                ci.index_keys.append((e.name, e.value, e.guards, e.loc(), e.base))
        used = set()
        if "class_" in ci.init and "class_" not in kwargs:
            # the class tag is loaded to be compared, the constructor sets the attribute itself
            cl = [e for e in loads if doc_key(_bind(e.term, ("val",)).get("val", NONE), docname) == "class"]
            if cl:
                kwargs["class_"] = cl[0].term
        for n, v in kwargs.items():
            if n in COMMON or n is None:
                continue
            fi = Field(n)
            fi.value = v
            ci.fields[n] = fi
            calls = [t for t in walk(v) if t[0] == "call" and callee(t) == f"{self.mod.name}._load_field"]
            own = []
            for t in dict.fromkeys(calls):
                if not any(t != u and contains(u, t) for u in calls):
                    own.append(t)
            # the identifier is also the base of other loads: only top level alternatives count
            tops = [t for t in alternatives(v) if t in calls]
            own = tops or own
            for t in own:
                args = _bind(t, ("val", "fieldtype", "baseuri", "loadingOptions", "lc"))
                k = doc_key(args.get("val", NONE), docname)
                for e in by_term.get(t, []):
                    used.add(id(e))
                    fi.load_locs.append(e.loc())
                if k is None:
                    fi.problems.append(("key", f"{ci.name}.{n} is loaded from {fmt(args.get('val', NONE))[:60]}, not from a document key", (fi.load_locs or [""])[0]))
                else:
                    fi.keys.add(k)
                lt = args.get("fieldtype", NONE)
                fi.loaders.append(self.loaders.of_term(lt))
                fi.loader_names.append(fmt(lt).rsplit(".", 1)[-1])
                fi.base.add(args.get("baseuri"))
                if not contains(args.get("loadingOptions", NONE), ("param", "loadingOptions")):
                    fi.problems.append(("options", f"{ci.name}.{n} is loaded without the caller's loading options", (fi.load_locs or [""])[0]))
            if not own:
                fi.problems.append(("key", f"{ci.name}.{n} is constructed from {fmt(v)[:80]} instead of a loaded document field", ctor_e.loc()))
            for x in alternatives(v):
                if x in calls or x == NONE or x[0] == "undef":
                    continue
                if x == ("param", "docRoot") or _is_uuid(x):
                    continue
                fi.problems.append(("default", f"{ci.name}.{n} may be replaced by {fmt(x)[:60]}", ctor_e.loc()))
        # loads whose result reaches no field
        for e in loads:
            if id(e) not in used and not any(contains(v, e.term) for n, v in kwargs.items()):
                ci.problems.append(("key", f"{ci.name}.fromDoc loads {fmt(e.term[2][0])[:60]} and drops the result", e.loc()))
        # required-ness
        handlers = {}
        for e in r.events:
            for g, pol in e.guards:
                if g[0] == "except":
                    handlers.setdefault(g[2], []).append(e)
        for n, fi in ci.fields.items():
            for k in fi.keys:
                for e in r.of("raise"):
                    if exc_name(e.term) != "ValidationException":
                        continue
                    inexc = any(g[0] == "except" for g, _ in e.guards)
                    if inexc:
                        continue
                    own_g = [x for x in e.guards if x[0][0] not in ("try", "loop", "with")]
                    if own_g and _absent(own_g[-1], k, docname):
                        fi.required = True
        # error coverage of each load
        for e in loads:
            args = _bind(e.term, ("val", "fieldtype", "baseuri", "loadingOptions", "lc"))
            k = doc_key(args.get("val", NONE), docname)
            tries = [g for g, _ in e.guards if g[0] == "try" and any(catches_validation(c) for c in g[1])]
            if not tries:
                if k != "class":
                    ci.problems.append(("collect", f"{ci.name}.fromDoc: a failure of `{k}` is not collected with the other errors", e.loc()))
                continue
            t = tries[-1]
            covered = []
            stop = False
            for h in handlers.get(t[2], []):
                hi = [i for i, (g, _) in enumerate(h.guards) if g[0] == "except" and g[2] == t[2]][-1]
                rest = h.guards[hi + 1:]
                if h.kind == "raise":
                    covered.append(rest)
                elif h.kind == "call" and errs is not None and h.term[1] in (("attr", errs, "append"), ("attr", errs, "extend"), ("attr", errs, "insert")):
                    covered.append(rest)
            if not tautology(covered):
                ci.problems.append(("collect", f"{ci.name}.fromDoc: a failure of `{k}` can be swallowed by the handler", e.loc()))
        # unknown keys
        attrs_terms = {("attr", clsp, "attrs"), ("global", ci.cls.qual + ".attrs")}
        unk = []
        for e in r.events:
            for i, (g, pol) in enumerate(e.guards):
                if g[0] == "in" and not pol and _is_dockey(g[1], docname) and (g[2] in attrs_terms or _is_const_set(g[2], ci.attrs)):
                    unk.append((e, e.guards[i + 1:], g[1]))
        cov = []
        ext = kwargs.get("extension_fields")
        ext_seen = False
        for e, rest, kt in unk:
            if e.kind == "call" and errs is not None and e.term[1] in (("attr", errs, "append"), ("attr", errs, "extend")):
                cov.append(rest)
            elif e.kind == "raise":
                cov.append(rest)
            elif e.kind == "store_item" and ext is not None and e.base == ext:
                cov.append(rest)
                ext_seen = True
                if not any(pol and g == ("in", ("const", ":"), kt) for g, pol in rest):
                    ci.problems.append(("unknown", f"{ci.name}.fromDoc accepts any undeclared field as an extension", e.loc()))
                if not (e.value[0] in ("item", "get") and is_doc(e.value[1], docname) or e.value[0] == "valof"):
                    ci.problems.append(("extension", f"{ci.name}.fromDoc keeps {fmt(e.value)[:50]} as the value of an extension field", e.loc()))
        if not unk or not tautology(cov):
            ci.problems.append(("unknown", f"{ci.name}.fromDoc does not report every undeclared field", f.module.rel() + f":{f.node.lineno}"))
        if not ext_seen:
            ci.problems.append(("extension", f"{ci.name}.fromDoc does not keep namespaced extension fields", f.module.rel() + f":{f.node.lineno}"))
        lo = kwargs.get("loadingOptions")
        if lo is None or not contains(lo, ("param", "loadingOptions")):
            ci.problems.append(("options", f"{ci.name}.fromDoc does not hand its loading options to the object", ctor_e.loc()))
        self._class_tag(ci, r, docname, clsp)
        self._identity(ci, r, kwargs, ctor_e)

    def _class_tag(self, ci, r, docname, clsp):
        if "class_" not in ci.fields:
            if "class_" in ci.init:
                ci.problems.append(("tag", f"{ci.name}.fromDoc does not read the document's class", ci.cls.module.rel() + f":{ci.cls.node.lineno}"))
            return
        ok = False
        for e in r.of("raise"):
            for g, pol in e.guards:
                if not pol and any(t[0] == "call" and callee(t).endswith("._load_field") and doc_key(t[2][0], docname) == "class" for t in walk(g) if t[0] == "call" and t[2]):
                    if contains(g, ("attr", clsp, "__name__")) or contains(g, ("const", ci.name)) or contains(g, ("global", ci.cls.qual + ".__name__")):
                        ok = True
        if not ok:
            ci.problems.append(("tag", f"{ci.name}.fromDoc does not compare the document's class with its own name", ci.cls.module.rel() + f":{ci.cls.node.lineno}"))

    def _identity(self, ci, r, kwargs, ctor_e):
        """id/name fields: base of nested identifiers and registration."""
        for n in ("id", "name"):
            fi = ci.fields.get(n)
            if fi is None or not fi.loaders:
                continue
            if all(l[0] == "uri" and l[2] is True for l in fi.loaders):
                ci.idkey = n

    # ------------------------------------------------------------------
    def _save(self, ci):
        f = ci.cls.methods["save"]
        r = self.eng.run(f)
        ci.n_events += len(r.events)
        selfp = ("param", f.params()[0])
        rets = [v for _, v in r.returns]
        targets = []
        for v in rets:
            targets.extend(alternatives(v))
        ci.save_results = targets
        ci.save_events = r.events
        puts = []
        for e in r.of("store_item"):
            if e.base in targets:
                puts.append((e.name, e.value, e.guards, e))
        for e in r.of("call"):
            if e.term[1][0] == "attr" and e.term[1][1] in targets and e.term[1][2] == "update":
                for a in e.term[2]:
                    if a[0] == "new" and a[2] == "dict":
                        for p in a[3]:
                            if p[0] == "pair":
                                puts.append((p[1], p[2], e.guards, e))
                for k, v in e.term[3]:
                    if k:
                        puts.append((("const", k), v, e.guards, e))
        for t in targets:
            if t[0] == "new" and t[2] == "dict":
                for p in t[3]:
                    if p[0] == "pair":
                        puts.append((p[1], p[2], (), None))
        ci.ext_saved = []
        ci.meta_saved = {}
        for key, val, guards, e in puts:
            loc = e.loc() if e is not None else ci.cls.module.rel()
            if key[0] != "const":
                ci.ext_saved.append((key, val, guards, loc))
                continue
            k = key[1]
            if isinstance(k, str) and k.startswith("$"):
                ci.meta_saved.setdefault(k, []).append((val, guards, loc))
                continue
            for x, xg in gated(val):
                ci.saved.setdefault(k, []).append(self._saved(ci, k, x, guards + xg, selfp, loc))

    def _saved(self, ci, k, x, guards, selfp, loc) -> Saved:
        c = callee(x) if x[0] == "call" else ""
        base_c = c.rsplit(".", 1)[-1]
        if base_c == "save_relative_uri":
            a = _bind(x, ("uri", "base_url", "scoped_id", "ref_scope", "relative_uris"))
            attr = _self_attr(a.get("uri"), selfp)
            kind = "uri"
            if attr is None:
                inner = {_self_attr(t, selfp) for t in walk(a.get("uri", NONE))} - {None, "loadingOptions"}
                if inner == {"class_"}:
                    attr, kind = "class_", "class"
            return Saved(k, kind, attr, a.get("base_url"), tuple(a.get(n) for n in ("scoped_id", "ref_scope", "relative_uris")), list(guards), loc, x)
        if base_c == "save":
            a = _bind(x, ("val", "top", "base_url", "relative_uris"))
            return Saved(k, "value", _self_attr(a.get("val"), selfp), a.get("base_url"), tuple(a.get(n) for n in ("top", "relative_uris")), list(guards), loc, x)
        return Saved(k, "raw", _self_attr(x, selfp), None, (), list(guards), loc, x)

    def _eq(self, ci):
        f = ci.cls.methods.get("__eq__")
        if f is None:
            return
        r = self.eng.run(f)
        ci.n_events += len(r.events)
        ps = f.params()
        s, o = ("param", ps[0]), ("param", ps[1])
        compared = None
        for g, v in r.returns:
            for x, xg in gated(v):
                gs = [y for y in g + xg if y[0][0] not in ("try",)]
                x = _unbool(x)
                if x == ("const", False) or x == ("global", "builtins.NotImplemented"):
                    continue
                if x == ("const", True):
                    # everything must have been established by the guards
                    parts = [t for t, p in gs if p]
                elif x[0] == "and":
                    parts = list(x[1]) + [t for t, p in gs if p]
                else:
                    parts = [x] + [t for t, p in gs if p]
                attrs = set()
                typed = False
                for t in parts:
                    t = _unbool(t)
                    sub = list(t[1]) if t[0] == "and" else [t]
                    for u in sub:
                        if u[0] == "isinst" and u[1] == o and ci.cls.qual in u[2]:
                            if len(u[2]) == 1:
                                typed = True
                            continue
                        if u[0] in ("eq", "is") and {u[1], u[2]} == {("call", ("global", "builtins.type"), (o,), ()), ("call", ("global", "builtins.type"), (s,), ())}:
                            typed = True
                            continue
                        if u[0] == "eq":
                            for p1, p2 in _pairs(u[1], u[2]):
                                if p1[0] == "attr" and p2[0] == "attr" and p1[2] == p2[2] and {p1[1], p2[1]} == {s, o}:
                                    attrs.add(p1[2])
                                elif p1[0] == "attr" and p2[0] == "attr":
                                    ci.eq_problems.append((f"{ci.name}.__eq__ compares {fmt(p1)} with {fmt(p2)}", f.module.rel() + f":{f.node.lineno}"))
                                elif p1 == ("unequal",):
                                    ci.eq_problems.append((f"{ci.name}.__eq__ compares sequences of different length", f.module.rel() + f":{f.node.lineno}"))
                        elif u[0] == "call" and callee(u) == "builtins.all":
                            pass
                        elif u[0] in ("or", "not", "or2"):
                            if any(_self_attr(t2, s) for t2 in walk(u)):
                                ci.eq_problems.append((f"{ci.name}.__eq__ is satisfied by a weaker condition: {fmt(u)[:80]}", f.module.rel() + f":{f.node.lineno}"))
                if not typed:
                    ci.eq_problems.append((f"{ci.name}.__eq__ can be true for an object of another type", f.module.rel() + f":{f.node.lineno}"))
                compared = attrs if compared is None else compared & attrs
        ci.eq = compared if compared is not None else set()

    def _hash(self, ci):
        f = ci.cls.methods.get("__hash__")
        if f is None:
            return
        r = self.eng.run(f)
        ci.n_events += len(r.events)
        s = ("param", f.params()[0])
        attrs = set()
        other = False
        for g, v in r.returns:
            for t in walk(v):
                a = _self_attr(t, s)
                if a:
                    attrs.add(a)
                if t[0] == "call" and callee(t) in ("builtins.id",):
                    other = True
        ci.hash = attrs
        ci.hash_identity = other


def _pairs(a, b):
    if a[0] == "new" and b[0] == "new" and a[2] == b[2]:
        if len(a[3]) != len(b[3]):
            return [(("unequal",), ("unequal",))]
        return list(zip(a[3], b[3]))
    return [(a, b)]


def _unbool(x):
    while x[0] == "call" and callee(x) == "builtins.bool" and len(x[2]) == 1:
        x = x[2][0]
    return x


def _self_attr(t, selfp):
    if t is not None and t[0] == "attr" and t[1] == selfp:
        return t[2]
    if t is not None and t[0] == "getattr" and t[1] == selfp:
        return t[2]
    return None


def _bind(call: Term, names) -> dict:
    out = {}
    for n, v in zip(names, call[2]):
        out[n] = v
    for k, v in call[3]:
        out[k] = v
    return out


def _is_uuid(t) -> bool:
    return any(x[0] == "global" and x[1].startswith("uuid") for x in walk(t))


def _absent(g, k, docname) -> bool:
    t, pol = g
    if pol and t[0] == "isnone" and doc_key(t[1], docname) == k:
        return True
    if not pol and t[0] == "in" and t[1] == ("const", k) and is_doc(t[2], docname):
        return True
    if not pol and doc_key(t, docname) == k:
        return True
    return False


def _is_dockey(t, docname) -> bool:
    return t[0] == "elem" and is_doc(t[1], docname)


def _is_const_set(t, attrs) -> bool:
    return t[0] == "new" and attrs is not None and {x[1] for x in t[3] if x[0] == "const"} == attrs


def tautology(dnf, depth=0) -> bool:
    """Whether the disjunction of guard conjunctions always holds (syntactic atoms)."""
    clauses = [tuple(g for g in c if g[0][0] not in ("loop", "try", "with", "callback")) for c in dnf]
    if any(len(c) == 0 for c in clauses):
        return True
    if not clauses or depth > 14:
        return False
    atom = clauses[0][0][0]
    for pol in (True, False):
        sub = []
        for c in clauses:
            if any(a == atom and p != pol for a, p in c):
                continue
            sub.append(tuple((a, p) for a, p in c if a != atom))
        if not tautology(sub, depth + 1):
            return False
    return True
