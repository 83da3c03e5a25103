"""Conformance of the current tree to the reviewed reference, function by function."""
from __future__ import annotations

import ast
import os
import signal
import threading
import time
from dataclasses import dataclass, field
from pathlib import Path
from typing import Optional

from . import engine as E
from .engine import size
from .facts import F, T, _within, Extractor, Facts, Theory, atoms_of, evaluate, f_and, f_not, f_or, fmt_f, fmt_key
from .edit import Edit
from .index import Class, Func, Index, Module

REF = Path(os.environ.get("SA_REF", Path(__file__).resolve().parent.parent / "ref"))


# changed statements, before and after together, from which a function counts as rewritten
REWRITTEN = 6


@dataclass
class Diff:
    func: str
    kind: str  # missing added condition const signature
    key: tuple
    where: tuple
    text: str
    detail: str = ""


# seconds spent on seeing whether a difference goes away behind the helpers,
# for one function and for a whole run
LOOK_THROUGH = 100
LOOK_THROUGH_ALL = 300


class OutOfTime(BaseException):
    pass


class Budget:
    """Leave the block when the time is used up."""

    spent = 0.0

    def __init__(self, seconds):
        self.seconds = max(5, min(seconds, LOOK_THROUGH_ALL - Budget.spent))
        self.same = False

    def __enter__(self):
        self.start = time.monotonic()
        self.main = threading.current_thread() is threading.main_thread()
        if self.main:
            self.old = signal.signal(signal.SIGALRM, self._over)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def _over(self, *a):
        raise OutOfTime

    def __exit__(self, kind, value, tb):
        if self.main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        Budget.spent += time.monotonic() - self.start
        return kind is OutOfTime


def is_record(c: Class) -> bool:
    return {"fromDoc", "save", "__init__", "__eq__"} <= set(c.methods)


def functions(ix: Index, skip_records=False):
    """Qualified name -> Func of all module-level functions and methods."""
    out = {}
    for n in ix.all_module_names():
        m = ix.module(n)
        for f in m.funcs.values():
            out[f.qual] = f
        for c in m.classes.values():
            if skip_records and n.startswith("cwl_utils.parser.cwl_v1_") and (is_record(c) or _record_like(c)):
                continue
            for f in c.methods.values():
                out[f.qual] = f
    return out


def _record_like(c: Class) -> bool:
    return "attrs" in c.attrs or (set(c.methods) <= {"__init__"} and any(E.dotted(b) in ("Saveable",) for b in c.bases))


def signature(f: Func):
    a = f.node.args
    return (
        len(a.posonlyargs + a.args),
        len(a.defaults),
        tuple(sorted(x.arg for x in a.kwonlyargs)),
        a.vararg is not None,
        a.kwarg is not None,
        f.static,
        f.clsmethod,
        tuple(ast.dump(d) for d in a.defaults),
    )


def signature_shape(f: Func):
    return signature(f)[:-1]


class Strip(ast.NodeTransformer):
    """Remove what has no bearing on behaviour: docstrings, annotations."""

    def _body(self, node):
        self.generic_visit(node)
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        return node

    visit_Module = visit_ClassDef = _body

    def visit_FunctionDef(self, node):
        self._body(node)
        node.returns = None
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return node
        return ast.Assign(targets=[node.target], value=node.value, lineno=0)


def src_text(f: Func) -> str:
    m = f.module
    if not hasattr(m, "_lines"):
        m._lines = m.source.split("\n")
    n = f.node
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    return "\n".join(m._lines[first - 1:n.end_lineno])


def plain(node) -> str:
    import copy
    return ast.dump(Strip().visit(copy.deepcopy(node)))


class Conformance:
    def __init__(self, root: Optional[str] = None, ref: Optional[str] = None):
        self.new = Index(root)
        self.ref = Index(str(ref or REF))
        self._nf = None
        self._rf = None

    def load(self):
        self.rf = functions(self.ref)
        self.nf = functions(self.new)
        self.shared = set()
        self.changed_sig = set()
        for q, f in self.rf.items():
            g = self.nf.get(q)
            if g is None:
                continue
            if signature_shape(f) == signature_shape(g):
                self.shared.add(q)
            else:
                self.changed_sig.add(q)
        sh = self.shared
        self._rec: dict = {}
        self.isshared = lambda q: q in sh or self.record_method(q)
        self.xr = Extractor(self.ref, self.isshared)
        self.xn = Extractor(self.new, self.isshared)
        self.theory = Theory(self.new)
        # a second form, in which choices stay inside the terms as decision trees
        self.yr = Extractor(self.ref, self.isshared, expand=False)
        self.yn = Extractor(self.new, self.isshared, expand=False)
        self._same: dict = {}
        self.edit = Edit(self)
        self.abstained: dict = {}
        return self

    def record_method(self, q) -> bool:
        """A method of a generated record class (specified by the model table)."""
        c, _, m = q.rpartition(".")
        if c not in self._rec:
            k = self.new.lookup(c)
            self._rec[c] = isinstance(k, Class) and c.startswith("cwl_utils.parser.cwl_v1_") and "attrs" in k.attrs
        return self._rec[c]

    # -- identical text ---------------------------------------------------------
    def same_text(self, q) -> bool:
        if q not in self._same:
            f, g = self.rf.get(q), self.nf.get(q)
            r = False
            if f is not None and g is not None and (src_text(f) == src_text(g) or plain(f.node) == plain(g.node)):
                r = self._names(f, self.ref) == self._names(g, self.new)
            self._same[q] = r
        return self._same[q]

    def _names(self, f: Func, ix: Index):
        out = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id not in out:
                out[n.id] = ix.resolve(f.module, n.id)
        return {k: v for k, v in out.items() if v and not v.startswith("builtins.")}

    def _mentions(self, f, ix):
        """How often the function mentions each function or method of the package."""
        if not hasattr(self, "_methods"):
            self._methods = {q.rsplit(".", 1)[-1] for fs in (self.rf, self.nf) for q, x in fs.items() if x.cls is not None}
        out: dict = {}
        for n in ast.walk(f.node):
            k = None
            if isinstance(n, ast.Name):
                k = ix.resolve(f.module, n.id)
                k = k if k in self.rf or k in self.nf else None
            elif isinstance(n, ast.Attribute):
                k = "." + n.attr if n.attr in self._methods else None
            elif isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not f.node:
                k = "def"
            if k:
                out[k] = out.get(k, 0) + 1
        return out

    def extra_names(self, q) -> bool:
        """Does the function use package functions that only one tree has?"""
        for ix, fs, other in ((self.ref, self.rf, self.nf), (self.new, self.nf, self.rf)):
            f = fs.get(q)
            if f is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name):
                    r = ix.resolve(f.module, n.id)
                    if r and r in fs and (r not in other or r in self.changed_sig):
                        return True
                elif isinstance(n, ast.Attribute):
                    for r in self.changed_sig:
                        if r.endswith("." + n.attr):
                            return True
        return False

    # -- comparison ---------------------------------------------------------------
    def compare_facts(self, q: str, a: Facts, b: Facts) -> list:
        out = []
        if a.unknown or b.unknown:
            return out
        # what leads to an error in both is not distinguished any further
        care = T
        ra = f_or([c for k, c in a.f.items() if k[0] == "raise"])
        rb = f_or([c for k, c in b.f.items() if k[0] == "raise"])
        # a search that succeeded found an element that fits
        for k in a.f:
            if k[0] == "search" and k in b.f and k[1] is not None and size(a.f[k], 400) <= 400:
                care = f_and([care, f_or([f_not(("A", ("found", k[1]))), a.f[k]])])
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            fa, fb = a.f.get(k, F), b.f.get(k, F)
            if fa == fb:
                continue
            if k[0] == "iter" and (k not in a.f or k not in b.f):
                continue
            if k[0] == "says":
                # what a message tells: only a value that is not told any more counts
                if not any(x[0] == "raise" and x[1] == k[1] for x in b.f):
                    continue
                fb = f_or([c for x, c in b.f.items() if x[0] == "says" and _within(k[2], x[2])])
                fa = f_and([fa, f_not(fb)])
                if fb == T or fa == F or self.theory.differ(fa, F) is None:
                    continue
                fb = F
            acc = atoms_of(fa)
            atoms_of(fb, acc)
            mine = [x for x in (care[1] if care[0] == "&" else [care]) if x != T and any(y[0] == "found" and y in acc for y in atoms_of(x))]
            w = self.theory.differ(fa, fb)
            if w is not None and mine:
                w = self.theory.differ(fa, fb, f_and(mine))
            if w is None:
                continue
            if k[0] not in ("raise", "says") and (ra != F or rb != F):
                if len(atoms_of(ra)) + len(atoms_of(rb)) < 60:
                    c2 = f_and([f_not(f_or([f for f in (ra, rb) if f != F]))] + mine)
                    w2 = self.theory.differ(fa, fb, c2)
                    if w2 is None:
                        continue
                    w = w2
            kind = "missing" if k not in b.f else ("added" if k not in a.f else "condition")
            where = tuple(sorted(b.where.get(k, ()) or a.where.get(k, ())))
            on = [k2 for k2, v in w.items() if v and k2 in set(atoms_of(fa)) | set(atoms_of(fb))]
            off = [k2 for k2, v in w.items() if not v and k2 in set(atoms_of(fa)) | set(atoms_of(fb))]
            detail = "when " + "; ".join([E.fmt(x)[:160] for x in on[:4]] + ["not " + E.fmt(x)[:160] for x in off[:4]])
            out.append(Diff(q, kind, k, where, fmt_key(k)[:400], detail))
        return out

    def function(self, q: str) -> list:
        """Differences of one function, empty when it conforms."""
        if q in self._fn_cache:
            return self._fn_cache[q]
        r = self._function(q)
        self._fn_cache[q] = r
        return r

    _fn_cache: dict

    def _function(self, q):
        f, g = self.rf.get(q), self.nf.get(q)
        if f is None or g is None:
            return []
        if self.same_text(q) and not self.extra_names(q):
            return []
        args = None
        if q in self.changed_sig:
            args = self._extra_params(f, g)
            if args is None:
                return []
        return self.judge(q, f, g, args)

    def judge(self, q, f, g, args=None, xn=None, yn=None):
        d = self.differ(q, f, g, args, None, xn, yn)
        if not d:
            return []
        why = self.rewritten(q) if xn is None else None
        ma, mb = self._mentions(f, self.ref), self._mentions(g, self.new)
        if not why and xn is None and not self.extra_names(q) and ma == mb:
            return d  # no call of the package was added, removed or replaced
        # a helper that only one of the two forms uses was written out or put to use
        for only in (set(ma) - set(mb), set(mb) - set(ma), set(ma) ^ set(mb)):
            fs = frozenset(k for k in only if k in self.rf and k in self.nf and k != q)
            if fs and self.differ(q, f, g, args, self._these(fs), xn, yn) == []:
                return []
        # look through the package's own helpers before deciding
        with Budget(LOOK_THROUGH if not why else LOOK_THROUGH // 4) as left:
            for depth in (1, 2):
                d2 = self.differ(q, f, g, args, self._near(q, depth), xn, yn)
                if d2 is None:
                    break
                if not d2:
                    left.same = True
                    break
        if left.same:
            return []
        if why:
            self.abstained[q] = why
            return []
        return d

    def rewritten(self, q):
        """Was the function rewritten as a whole out of the same vocabulary?

        The engine then has no statement of the changed form to hold against the
        reference, and a remaining difference may be its own blindness."""
        try:
            helpers, na, nb, lost, gained = self.edit.measure(q)
        except Exception:  # noqa: BLE001 - not comparable as text
            return None
        if lost or gained or na + nb < 3:
            return None
        if helpers or (na + nb >= REWRITTEN and na >= 2):
            return f"rewritten ({na} statements replaced by {nb}, same vocabulary): equivalence not decided"
        return None

    def differ(self, q, f, g, args=None, inline=None, xn=None, yn=None):
        """Differences that remain in each of the two forms; None: not analysable."""
        out = None
        for xr, x in ((self.xr, xn or self.xn), (self.yr, yn or self.yn)):
            a = xr.facts(f, inline=inline)
            b = x.facts(g, args, inline=inline)
            if a.unknown or b.unknown:
                continue
            d = self.compare_facts(q, a, b)
            if not d:
                # the same facts, but perhaps about another of the local collections
                a = xr.facts(f, inline=inline, deep=True)
                b = x.facts(g, args, inline=inline, deep=True)
                if a.unknown or b.unknown or len(a.made) != len(b.made) or len(a.made) < 2:
                    return []
                if a.made != b.made:
                    ha, hb = [h for h, _ in a.made], [h for h, _ in b.made]
                    if len(set(ha)) < len(ha) or len(set(hb)) < len(hb):
                        return []
                    d = [Diff(q, "content", ("made", h), (f"{g.module.rel()}:{g.node.lineno}",), "a local collection holds " + ", ".join(t)[:300], "no collection holds this in the reference") for h, t in b.made if h not in ha]
                else:
                    d = self.compare_facts(q, a, b)
                if not d:
                    return []
                for k in d:
                    k.text = "another local collection: " + k.text
            out = out or d
        return out

    def _these(self, fs):
        if fs not in self._inl:
            self._inl[fs] = lambda r: r in fs or not self.isshared(r)
        return self._inl[fs]

    def _near(self, q, depth):
        base = ".".join(q.split(".")[:2])
        key = ("near", base, depth)
        if key not in self._inl:
            own = q
            self._inl[key] = lambda r: (not self.isshared(r)) or (depth >= 1 and r.startswith("cwl_utils.") and not r.endswith("__init__") and self._small(r, 40 if depth == 1 else 120))
        return self._inl[key]

    _inl: dict = {}

    def _small(self, r, n):
        f = self.rf.get(r) or self.nf.get(r)
        return f is not None and (f.node.end_lineno - f.node.lineno) <= n

    def _extra_params(self, f, g):
        """Values for parameters only the new form has, when they are optional."""
        na = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        nb = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if len(nb) < len(na):
            return None
        dflt = dict(zip(nb[len(nb) - len(g.node.args.defaults):], g.node.args.defaults))
        dflt.update({x.arg: v for x, v in zip(g.node.args.kwonlyargs, g.node.args.kw_defaults) if v is not None})
        args = {}
        known = {x.arg for x in f.node.args.kwonlyargs}
        for n in nb[len(na):] + [x.arg for x in g.node.args.kwonlyargs if x.arg not in known]:
            v = dflt.get(n)
            if not isinstance(v, ast.Constant):
                return None
            args[n] = ("const", v.value)
        return args

    def _modcalls(self, eng, m):
        """Effects of module level method calls on module level values."""
        out = {}
        todo = list(m.tree.body)
        while todo:
            st = todo.pop(0)
            if isinstance(st, (ast.If, ast.Try, ast.With)):
                todo = [x for n in ("body", "orelse", "finalbody") for x in getattr(st, n, [])] + todo
                continue
            tgt = meth = None
            args: list = []
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name):
                tgt, meth, args = st.value.func.value.id, st.value.func.attr, list(st.value.args)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and isinstance(st.targets[0].value, ast.Name):
                tgt, meth, args = st.targets[0].value.id, "update", [ast.Dict([st.targets[0].slice], [st.value])]
            elif isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and isinstance(st.value, ast.Dict) and st.value.keys:
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if isinstance(t, ast.Name):
                    tgt, meth, args = t.id, "update", [st.value]
            if tgt is None or tgt not in m.consts:
                continue
            for i, a in enumerate(args):
                try:
                    t = canon_const(eng.eval_in_module(m, a))
                except Exception:  # noqa: BLE001 - an unusual construct is not judged
                    continue
                for k, v in _entries(t):
                    out[(tgt, meth, k)] = (v, st.lineno)
        return out

    # -- module level ---------------------------------------------------------------
    def constants(self, modname: str) -> list:
        """Differences in module- and class-level values and in defaults."""
        out = []
        mr, mn = self.ref.module(modname), self.new.module(modname)
        if mr is None or mn is None:
            return out
        er, en = Engine_(self.ref), Engine_(self.new)

        def val(eng, m, node):
            try:
                return canon_const(eng.eval_in_module(m, node))
            except Exception:  # noqa: BLE001 - an unusual construct is not judged
                return None

        for name in mr.consts:
            if name not in mn.consts or mr.multi.get(name, 1) != 1 or mn.multi.get(name, 1) != 1:
                continue
            x, y = mr.consts[name], mn.consts[name]
            if ast.dump(x) == ast.dump(y):
                continue
            a, b = val(er, mr, x), val(en, mn, y)
            if a != b and a is not None and b is not None and not _opaque(a) and not _opaque(b):
                out.append(Diff(f"{modname}.{name}", "const", ("const", name), (f"{mn.rel()}:{y.lineno}",), f"value of {name}", f"{E.fmt(a)[:300]} -> {E.fmt(b)[:300]}"))
        for cn, c in mr.classes.items():
            d = mn.classes.get(cn)
            if d is None:
                continue
            for an, x in c.attrs.items():
                y = d.attrs.get(an)
                if y is None or ast.dump(x) == ast.dump(y):
                    continue
                a, b = val(er, mr, x), val(en, mn, y)
                if a != b and a is not None and b is not None:
                    out.append(Diff(f"{modname}.{cn}.{an}", "const", ("attr", an), (f"{mn.rel()}:{y.lineno}",), f"value of {cn}.{an}", f"{E.fmt(a)[:300]} -> {E.fmt(b)[:300]}"))
            ba = [self.ref.resolve(mr, E.dotted(x)) if E.dotted(x) else ast.dump(x) for x in c.bases]
            bb = [self.new.resolve(mn, E.dotted(x)) if E.dotted(x) else ast.dump(x) for x in d.bases]
            if set(ba) - set(bb) and not is_record(c):
                kr = {k.qual for k in self.ref.mro(c)}
                kn = {k.qual for k in self.new.mro(d)}
                if not kr <= kn:
                    out.append(Diff(f"{modname}.{cn}", "const", ("bases", cn), (f"{mn.rel()}:{d.node.lineno}",), f"bases of {cn}", f"{ba} -> {bb}"))
        cr, cn_ = self._modcalls(er, mr), self._modcalls(en, mn)
        for k, (v, _) in cr.items():
            if k not in cn_:
                out.append(Diff(f"{modname}.{k[0]}", "const", ("modcall",) + k, (mn.rel(),), f"{k[0]}.{k[1]} lacks {E.fmt(k[2])[:160]}", ""))
            elif cn_[k][0] != v and not _opaque(v) and not _opaque(cn_[k][0]):
                out.append(Diff(f"{modname}.{k[0]}", "const", ("modcall",) + k, (f"{mn.rel()}:{cn_[k][1]}",), f"{k[0]}.{k[1]} of {E.fmt(k[2])[:100]}", f"{E.fmt(v)[:300]} -> {E.fmt(cn_[k][0])[:300]}"))
        for k, (v, ln) in cn_.items():
            if k not in cr and (k[0], k[1]) in {(x[0], x[1]) for x in cr}:
                out.append(Diff(f"{modname}.{k[0]}", "const", ("modcall",) + k, (f"{mn.rel()}:{ln}",), f"{k[0]}.{k[1]} has the additional {E.fmt(k[2])[:160]}", ""))
        for q, f in self.rf.items():
            if not q.startswith(modname + ".") or f.module.name != modname:
                continue
            g = self.nf.get(q)
            if g is None:
                continue
            da, db = _defaults(f), _defaults(g)
            for i, x in da.items():
                y = db.get(i)
                if y is None or ast.dump(x) == ast.dump(y):
                    continue
                a, b = val(er, mr, x), val(en, mn, y)
                if a != b and a is not None and b is not None:
                    out.append(Diff(q, "const", ("default", i), (f"{mn.rel()}:{g.node.lineno}",), f"default of parameter {i}", f"{E.fmt(a)[:200]} -> {E.fmt(b)[:200]}"))
        return out


def _entries(t):
    """(key, value) entries of the argument of a module level update."""
    if t[0] == "new" and t[2] == "dict":
        return [(x[1], x[2]) if x[0] == "pair" else (x, x) for x in t[3]]
    if t[0] == "new":
        return [(x, ("const", i)) for i, x in enumerate(t[3])]
    return [(("const", "argument"), t)]


def _defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for i, v in enumerate(a.defaults):
        out[len(pos) - len(a.defaults) + i] = v
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            out[x.arg] = v
    return out


def Engine_(ix):
    e = E.Engine(ix, inline=lambda q: False, exact=True)
    return e


def _opaque(t):
    return any(x[0] in ("unknown", "big", "func") for x in E.walk(t))


def canon_const(t):
    t = E.strip(t)
    if t[0] == "new" and t[2] in ("set",):
        return ("new", (), "set", tuple(sorted(t[3], key=repr)))
    if t[0] == "new" and t[2] == "dict":
        return ("new", (), "dict", tuple(sorted((canon_const(x) if x[0] != "pair" else ("pair", x[1], canon_const(x[2])) for x in t[3]), key=repr)))
    if t[0] == "call" and t[1][0] == "global" and t[1][1] in ("builtins.frozenset", "builtins.set") and len(t[2]) == 1 and t[2][0][0] == "new":
        return ("new", (), "set", tuple(sorted(t[2][0][3], key=repr)))
    return t


def make(root=None, ref=None) -> Conformance:
    c = Conformance(root, ref)
    c._fn_cache = {}
    c._inl = {}
    return c.load()
