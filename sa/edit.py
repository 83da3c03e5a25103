"""How far two forms of a function are apart, as text: edit size and vocabulary.

Facts that differ are reported as a violation when the two forms of a function
correspond statement by statement, or when the changed form uses a different
vocabulary (other names, constants, callees or exceptions).  When a function was
rewritten as a whole out of the same vocabulary, the facts of the two forms may
differ only because the engine does not see through the rewriting; the function
is then reported as not judged, not as a violation.
"""
from __future__ import annotations

import ast
import re
from collections import Counter

from .index import Func

# spellings that a rewriting may introduce or remove without consequence
NEUTRAL = set(
    """get append extend items keys values setdefault update insert copy join format strip split
    startswith endswith removeprefix removesuffix partition rpartition rsplit find index
    any all len list tuple dict set frozenset str int bool next iter enumerate zip map filter range
    reversed sorted min max sum isinstance getattr hasattr callable print cast suppress chain
    from_iterable partial reduce itemgetter attrgetter islice starmap staticmethod classmethod
    property super type deque defaultdict Counter add __name__ __class__ self cls builtins
    typing contextlib itertools functools operator collections Any Optional Iterator
    debug info warning error exception _logger
    True False None StopIteration setattr""".split()
)


def _msg(node) -> bool:
    """A call that only produces a message."""
    return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id in ("_logger", "logger", "logging")


class _Vocab(ast.NodeVisitor):
    def __init__(self, locs, consts=lambda n: None):
        self.locs = locs
        self.consts = consts  # values of the constants that only one tree has
        self.inside: set = set()
        self.out: set = set()
        self.muted: set = set()
        self.quiet = 0

    def visit_Name(self, n):
        if n.id not in self.locs:
            v = self.consts(n.id)
            if v is None:
                self.out.add(("n", n.id))
            elif n.id not in self.inside:
                self.inside.add(n.id)
                self.visit(v)

    def visit_Attribute(self, n):
        self.out.add(("n", n.attr))
        self.visit(n.value)

    def visit_keyword(self, n):
        self.visit(n.value)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, (str, bytes)):
            s = v if isinstance(v, str) else v.decode("latin-1")
            s = re.sub(r"%[-#0-9.]*[a-zA-Z]", " ", s)
            for w in re.findall(r"\w+|[^\w\s{}%]", s):
                # a name may also be written as the string given to getattr
                (self.muted if self.quiet else self.out).add(("n" if w.isidentifier() else "s", w))
        elif isinstance(v, (int, float)) and not isinstance(v, bool) and v not in (0, 1):
            self.out.add(("c", v))

    def visit_Raise(self, n):
        if n.exc is None:
            return
        e = n.exc
        if isinstance(e, ast.Call):
            self.visit(e.func)
            self.quiet += 1
            for a in e.args:
                self.visit(a)
            self.quiet -= 1
        else:
            self.visit(e)
        if n.cause is not None:
            self.visit(n.cause)

    def visit_Call(self, n):
        q = _msg(n)
        self.quiet += q
        self.generic_visit(n)
        self.quiet -= q

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
        self.visit(n.target)

    def visit_arg(self, n):
        return

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        for s in _body(n):
            self.visit(s)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_BinOp(self, n):
        if isinstance(n.left, (ast.Tuple, ast.List)) and isinstance(n.right, ast.Constant):
            return self.visit(n.left)
        self.generic_visit(n)
        if not isinstance(n.op, (ast.Add, ast.Mod, ast.Sub)):
            self.out.add(("o", type(n.op).__name__))


def _body(n):
    b = n.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def local_names(n) -> set:
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not n:
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
    for x in ast.walk(n):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            out -= set(x.names)
    return out


def vocabulary(funcs, own, other=None) -> set:
    """Names, constants and operators of some functions, apart from their own names;
    and the words that occur in messages only."""
    out, muted = set(), set()
    for f in funcs:
        m, o = f.module, other.module(f.module.name) if other else None
        v = _Vocab(local_names(f.node), lambda n: m.consts.get(n) if o is not None and n not in o.consts and n not in o.imports else None)
        v.visit_FunctionDef(f.node)
        out |= v.out
        muted |= v.muted
    return {x for x in out if not (x[0] == "n" and (x[1] in NEUTRAL or x[1] in own))}, muted


class _Erase(ast.NodeTransformer):
    def __init__(self, locs, own):
        self.locs, self.own = locs, own

    def visit_Name(self, n):
        return ast.Name("_", ast.Load()) if n.id in self.locs else ast.Name(n.id, ast.Load())

    def visit_Attribute(self, n):
        self.generic_visit(n)
        return ast.Attribute(n.value, n.attr, ast.Load())

    def visit_Subscript(self, n):
        self.generic_visit(n)
        return ast.Subscript(n.value, n.slice, ast.Load())


def statements(f: Func, own) -> Counter:
    """Statements and headers of a function, local names erased."""
    import copy
    er = _Erase(local_names(f.node), own)
    out: Counter = Counter()

    def put(kind, *nodes):
        out[kind + "|" + "|".join(ast.dump(er.visit(copy.deepcopy(x))) for x in nodes if x is not None)] += 1

    def go(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                go(_body(s))
            elif isinstance(s, ast.If):
                put("if", s.test)
                go(s.body)
                go(s.orelse)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                put("for", s.iter)
                go(s.body)
                go(s.orelse)
            elif isinstance(s, ast.While):
                put("while", s.test)
                go(s.body)
                go(s.orelse)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                put("with", *[i.context_expr for i in s.items])
                go(s.body)
            elif isinstance(s, ast.Try):
                go(s.body)
                for h in s.handlers:
                    put("except", h.type)
                    go(h.body)
                go(s.orelse)
                go(s.finalbody)
            elif isinstance(s, ast.Match):
                put("match", s.subject)
                for c in s.cases:
                    out["case|" + ast.dump(c.pattern)] += 1
                    if c.guard is not None:
                        put("if", c.guard)
                    go(c.body)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    put("=", s.target, s.value)
            elif isinstance(s, ast.Assign):
                put("=", *s.targets, s.value)
            elif isinstance(s, (ast.Pass, ast.Continue, ast.Break)):
                pass
            else:
                put(type(s).__name__, s)

    go(_body(f.node))
    return out


class Edit:
    """Compares the forms of one function in two trees."""

    def __init__(self, conf):
        self.c = conf

    def closure(self, ix, funcs, f, other) -> list:
        """The function and the helpers of its package that only this tree has."""
        todo, seen = [f], {f.qual: f}
        while todo:
            g = todo.pop()
            for n in ast.walk(g.node):
                cand = []
                if isinstance(n, ast.Name):
                    cand = [ix.resolve(g.module, n.id)]
                elif isinstance(n, ast.Attribute):
                    cand = self._byname(funcs, other).get(n.attr, ())
                for q in cand:
                    if q and q in funcs and q not in seen and (q not in other or q in self.c.changed_sig):
                        seen[q] = funcs[q]
                        todo.append(funcs[q])
        return list(seen.values())

    def _byname(self, funcs, other):
        k = "_by" + str(id(funcs))
        if not hasattr(self, k):
            d: dict = {}
            for q in funcs:
                if q not in other or q in self.c.changed_sig:
                    d.setdefault(q.rpartition(".")[2], []).append(q)
            setattr(self, k, d)
        return getattr(self, k)

    def measure(self, q):
        """(helpers differ, unmatched before, unmatched after, lost, gained)"""
        c = self.c
        a = self.closure(c.ref, c.rf, c.rf[q], c.nf)
        b = self.closure(c.new, c.nf, c.nf[q], c.rf)
        ha = {f.qual for f in a} - {q}
        hb = {f.qual for f in b} - {q}
        own = {x.rpartition(".")[2] for x in ha | hb}
        sa: Counter = Counter()
        sb: Counter = Counter()
        for f in a:
            sa += statements(f, own)
        for f in b:
            sb += statements(f, own)
        (va, ma), (vb, mb) = vocabulary(a, own, c.new), vocabulary(b, own, c.ref)
        return bool(ha ^ hb), sum((sa - sb).values()), sum((sb - sa).values()), va - vb - mb, vb - va - ma
