"""Source normalisation before analysis: a list, set or dictionary that is filled
by one loop right after its creation is read as the comprehension it is."""
from __future__ import annotations

import ast
import copy

LOCATED = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def _names(n) -> set:
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class _Sub(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return copy.deepcopy(self.env[n.id])
        return n


def _start(v):
    """Elements a new list starts with, when it is a fresh list."""
    if isinstance(v, ast.List) and v.elts:
        return list(v.elts)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and len(v.args) == 1 and not v.keywords and not isinstance(v.args[0], ast.Starred):
        return [ast.copy_location(ast.Starred(v.args[0], ast.Load()), v)]
    return None


def _empty(v):
    if _start(v):
        return "list"
    if isinstance(v, ast.Constant) and isinstance(v.value, bool):
        return "flag" + str(v.value)
    if isinstance(v, ast.List) and not v.elts:
        return "list"
    if isinstance(v, ast.Dict) and not v.keys:
        return "dict"
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.args and not v.keywords and v.func.id in ("list", "dict", "set"):
        return v.func.id
    return None


class _No(Exception):
    pass


def _element(stmts, v, kind, env, bound):
    """(generators, element) of a loop body that adds one element, or _No."""
    stmts = [s for s in stmts if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if kind.startswith("flag") and len(stmts) > 1 and isinstance(stmts[-1], ast.Break):
        stmts = stmts[:-1]
    if kind == "flagelse" and len(stmts) == 1 and isinstance(stmts[0], ast.Break):
        return [], stmts[0]
    if not stmts:
        raise _No
    s, rest = stmts[0], stmts[1:]
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and rest:
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, "target", None)
        if isinstance(t, ast.Name) and s.value is not None and t.id != v and not _bad(s.value):
            val = _Sub(env).visit(copy.deepcopy(s.value))
            if v in _names(val):
                raise _No
            bound.add(t.id)
            return _element(rest, v, kind, {**env, t.id: val}, bound)
        raise _No
    if isinstance(s, ast.If):
        c = _Sub(env).visit(copy.deepcopy(s.test))
        if v in _names(c) or _bad(c):
            raise _No
        if rest and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
            g, e = _element(rest, v, kind, env, bound)
            return [("if", ast.copy_location(ast.UnaryOp(ast.Not(), c), s.test))] + g, e
        if rest:
            raise _No
        if not s.orelse:
            g, e = _element(s.body, v, kind, env, bound)
            return [("if", c)] + g, e
        g1, e1 = _element(s.body, v, kind, env, bound)
        g2, e2 = _element(s.orelse, v, kind, env, bound)
        if g1 or g2 or isinstance(e1, tuple):
            raise _No
        return [], ast.copy_location(ast.IfExp(c, e1, e2), s)
    if rest:
        raise _No
    if isinstance(s, ast.For) and not s.orelse:
        it = _Sub(env).visit(copy.deepcopy(s.iter))
        if v in _names(it) or not _targets(s.target):
            raise _No
        bound |= _names(s.target)
        if set(env) & _names(s.target):
            raise _No
        g, e = _element(s.body, v, kind, env, bound)
        return [("for", s.target, it)] + g, e
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        f = s.value.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == v and len(s.value.args) == 1 and not s.value.keywords:
            e = _Sub(env).visit(copy.deepcopy(s.value.args[0]))
            if v in _names(e) or isinstance(e, ast.Starred):
                raise _No
            if (f.attr, kind) in (("append", "list"), ("add", "set")):
                return [], e
        raise _No
    if isinstance(s, ast.Assign) and kind.startswith("flag") and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v:
        if isinstance(s.value, ast.Constant) and isinstance(s.value.value, bool) and str(s.value.value) != kind[4:]:
            return [], s.value
        raise _No
    if isinstance(s, ast.Assign) and kind == "dict" and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
        t = s.targets[0]
        if isinstance(t.value, ast.Name) and t.value.id == v and not isinstance(t.slice, ast.Slice):
            k = _Sub(env).visit(copy.deepcopy(t.slice))
            e = _Sub(env).visit(copy.deepcopy(s.value))
            if v in _names(k) | _names(e):
                raise _No
            return [], (k, e)
    raise _No


def _targets(t) -> bool:
    return isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(_targets(x) for x in t.elts)


def _bad(n) -> bool:
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n))


class CompLoops(ast.NodeTransformer):
    def __init__(self):
        self.count = 0

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        self._lists(fn, fn)
        return fn

    def _lists(self, node, fn):
        for name in ("body", "orelse", "finalbody"):
            lst = getattr(node, name, None)
            if isinstance(lst, list) and lst and isinstance(lst[0], ast.stmt):
                self._fold(lst, fn)
                for s in lst:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        self._lists(s, fn)
        for h in getattr(node, "handlers", []) or []:
            self._lists(h, fn)
        for h in getattr(node, "cases", []) or []:
            self._lists(h, fn)

    def _fold(self, lst, fn):
        i = 0
        while i < len(lst):
            s = lst[i]
            t = None
            if isinstance(s, ast.For) and s.orelse and not any(isinstance(x, ast.For) for y in s.body for x in ast.walk(y)):
                bare = ast.copy_location(ast.For(s.target, s.iter, s.body, []), s)
                c = self._comp(bare, None, "flagelse", fn)
                if c is not None:
                    lst[i] = ast.fix_missing_locations(ast.copy_location(ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), c), s), s.orelse, []), s))
                    self.count += 1
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
            elif isinstance(s, ast.AnnAssign):
                t = s.target
            if not isinstance(t, ast.Name) or s.value is None or not (kind := _empty(s.value)):
                i += 1
                continue
            j = i + 1
            while j < len(lst) and not (isinstance(lst[j], ast.For) and t.id in _names(lst[j])) and t.id not in _names(lst[j]) and isinstance(lst[j], (ast.Assign, ast.AnnAssign, ast.Expr)):
                j += 1
            if j < len(lst) and isinstance(lst[j], ast.For):
                c = self._comp(lst[j], t.id, kind, fn)
                if c is not None:
                    first = _start(s.value)
                    if first:
                        c = ast.copy_location(ast.List(first + [ast.copy_location(ast.Starred(c, ast.Load()), c)], ast.Load()), c)
                    new = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(t.id, ast.Store()), t)], c), lst[j])
                    ast.fix_missing_locations(new)
                    lst[j] = new
                    del lst[i]
                    self.count += 1
                    continue
            i += 1

    def _comp(self, loop, v, kind, fn):
        if _bad(loop):
            return None
        bound: set = set()
        try:
            gens, e = _element([loop], v, kind, {}, bound)
        except _No:
            return None
        # names bound by the loop must not be used elsewhere
        inside = {id(x) for x in ast.walk(loop)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in bound and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                if not self._rebound(fn, x):
                    return None
        out = []
        for g in gens:
            if g[0] == "for":
                out.append(ast.comprehension(g[1], g[2], [], 0))
            else:
                out[-1].ifs.append(g[1])
        if kind.startswith("flag"):
            if out[-1].ifs:
                e = out[-1].ifs.pop()
                if len(out[-1].ifs) > 0:
                    e = ast.BoolOp(ast.And(), out[-1].ifs + [e])
                    out[-1].ifs = []
            else:
                e = ast.Constant(True)
            c = ast.Call(ast.Name("any", ast.Load()), [ast.GeneratorExp(e, out)], [])
            if kind == "flagTrue":
                c = ast.UnaryOp(ast.Not(), c)
            for n in ast.walk(c):
                if isinstance(n, ast.expr) and not hasattr(n, "lineno"):
                    ast.copy_location(n, loop)
        elif isinstance(e, tuple):
            c = ast.DictComp(e[0], e[1], out)
        else:
            c = {"list": ast.ListComp, "set": ast.SetComp}[kind](e, out) if kind != "dict" else None
        if c is None:
            return None
        ast.copy_location(c, loop)
        return ast.fix_missing_locations(c)

    def _rebound(self, fn, x) -> bool:
        """Is the use below another loop or comprehension that binds the name?"""
        for n in ast.walk(fn):
            if isinstance(n, ast.For) and x.id in _names(n.target) and any(y is x for b in n.body for y in ast.walk(b)):
                return True
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(x.id in _names(g.target) for g in n.generators) and any(y is x for y in ast.walk(n)):
                return True
        return False


class Suppress(ast.NodeTransformer):
    """``with suppress(X): ...`` is a try statement that ignores X."""

    def visit_With(self, n):
        self.generic_visit(n)
        for i, it in enumerate(n.items):
            c = it.context_expr
            if isinstance(c, ast.Call) and it.optional_vars is None and not c.keywords and c.args and (
                isinstance(c.func, ast.Name) and c.func.id == "suppress" or isinstance(c.func, ast.Attribute) and c.func.attr == "suppress" and isinstance(c.func.value, ast.Name) and c.func.value.id == "contextlib"
            ):
                body = n.body
                if n.items[i + 1:]:
                    body = [ast.copy_location(ast.With(n.items[i + 1:], body), n)]
                t = c.args[0] if len(c.args) == 1 else ast.copy_location(ast.Tuple(list(c.args), ast.Load()), c)
                h = ast.copy_location(ast.ExceptHandler(t, None, [ast.copy_location(ast.Pass(), n)]), n)
                r = ast.copy_location(ast.Try(body, [h], [], []), n)
                if i:
                    r = ast.copy_location(ast.With(n.items[:i], [r]), n)
                return r
        return n


_URL = ("scheme", "netloc", "path", "query", "fragment")


class Strings(ast.NodeTransformer):
    """Counting separators, and replacing parts of a split URL."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or not isinstance(n.comparators[0], ast.Constant) or type(n.comparators[0].value) is not int:
            return n
        k, c, op = n.comparators[0].value, n.left, n.ops[0]
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len" and len(c.args) == 1 and self._on(c.args[0], "split"):
            c, k = c.args[0], k - 1
        elif not self._on(c, "count"):
            return n
        x, sep = c.func.value, c.args[0]
        if (isinstance(op, ast.Gt) and k == 0) or (isinstance(op, ast.GtE) and k == 1) or (isinstance(op, ast.NotEq) and k == 0):
            r = ast.Compare(sep, [ast.In()], [x])
        elif (isinstance(op, ast.Eq) and k == 0) or (isinstance(op, ast.Lt) and k == 1) or (isinstance(op, ast.LtE) and k == 0):
            r = ast.Compare(sep, [ast.NotIn()], [x])
        else:
            f = ast.copy_location(ast.Attribute(x, "count", ast.Load()), c)
            r = ast.Compare(ast.copy_location(ast.Call(f, [sep], []), c), [op], [ast.copy_location(ast.Constant(k), n.comparators[0])])
        return ast.copy_location(r, n)

    @staticmethod
    def _on(c, name):
        return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == name and len(c.args) == 1 and not c.keywords and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str) and c.args[0].value != ""

    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.args) == 1 and not n.keywords and (getattr(n.func, "id", None) or getattr(n.func, "attr", None)) == "urlunsplit":
            r = n.args[0]
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "_replace" and not r.args and isinstance(r.func.value, ast.Name) and all(k.arg in _URL for k in r.keywords):
                new = {k.arg: k.value for k in r.keywords}
                n.args = [ast.copy_location(ast.Tuple([new.get(x) or ast.copy_location(ast.Attribute(copy.deepcopy(r.func.value), x, ast.Load()), r) for x in _URL], ast.Load()), r)]
        return n


def _table(v):
    """The entries of a small dictionary display with constant text keys."""
    if isinstance(v, ast.Dict) and 1 < len(v.keys) <= 12 and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in v.keys) and all(_simple(x) for x in v.values):
        return list(zip(v.keys, v.values))
    return None


def _simple(x) -> bool:
    if isinstance(x, (ast.Tuple, ast.List)):
        return all(_simple(y) for y in x.elts)
    while isinstance(x, ast.Attribute):
        x = x.value
    return isinstance(x, (ast.Constant, ast.Name))


def _key(x) -> bool:
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Constant):
            return False
        x = x.value
    return isinstance(x, ast.Name)


class Tables(ast.NodeTransformer):
    """A lookup in a constant table is a choice between its values."""

    def __init__(self, tree):
        self.tables: dict = {}
        seen: dict = {}
        for st in tree.body:
            t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else getattr(st, "target", None)
            if isinstance(t, ast.Name) and isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                seen[t.id] = seen.get(t.id, 0) + 1
                e = _table(st.value)
                if e:
                    self.tables[t.id] = e
        par: dict = {}
        for n in ast.walk(tree):
            for ch in ast.iter_child_nodes(n):
                par[id(ch)] = n
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id in self.tables:
                p = par.get(id(n))
                ok = isinstance(n.ctx, ast.Store) and isinstance(p, (ast.Assign, ast.AnnAssign)) and seen.get(n.id) == 1 and any(p is st for st in tree.body)
                ok = ok or isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load)
                ok = ok or isinstance(p, ast.Compare) and n in p.comparators and len(p.ops) == 1 and isinstance(p.ops[0], (ast.In, ast.NotIn))
                ok = ok or isinstance(p, ast.Attribute) and p.attr in ("get", "keys") and isinstance(par.get(id(p)), ast.Call)
                if not ok:
                    del self.tables[n.id]

    def _of(self, v):
        if isinstance(v, ast.Name):
            return self.tables.get(v.id)
        return _table(v)

    def _chain(self, n, k, entries, last):
        r = last
        if r is None:  # a key that is not there is an error
            r = copy.deepcopy(entries[-1][1])
            entries = entries[:-1]
        for c, v in reversed(entries):
            r = ast.IfExp(ast.Compare(copy.deepcopy(k), [ast.Eq()], [copy.deepcopy(c)]), copy.deepcopy(v), r)
        for x in ast.walk(r):
            if isinstance(x, ast.expr):
                ast.copy_location(x, n)
        return ast.fix_missing_locations(r)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        e = self._of(n.value) if isinstance(n.ctx, ast.Load) and _key(n.slice) else None
        return self._chain(n, n.slice, e, None) if e else n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and 1 <= len(n.args) <= 2 and not n.keywords and _key(n.args[0]):
            e = self._of(n.func.value)
            if e and (len(n.args) == 1 or _simple(n.args[1])):
                return self._chain(n, n.args[0], e, n.args[1] if len(n.args) == 2 else ast.copy_location(ast.Constant(None), n))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            e = self._of(n.comparators[0])
            if e:
                n.comparators = [ast.copy_location(ast.Tuple([copy.deepcopy(k) for k, _ in e], ast.Load()), n)]
                ast.fix_missing_locations(n)
        return n


def _single(v):
    """The elements of a list or tuple display of at most one element."""
    if isinstance(v, (ast.List, ast.Tuple)) and len(v.elts) <= 1 and not any(isinstance(x, ast.Starred) for x in v.elts):
        return list(v.elts)
    return None


def _leaves_loop(body) -> bool:
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
        elif not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(n))
    return False


class ChoiceLoops(ast.NodeTransformer):
    """``for x in (A if c else [b]): S`` is ``if c: for x in A: S`` else ``x = b; S``."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        self._lists(fn, fn)
        return fn

    _lists = CompLoops._lists

    def _fold(self, lst, fn):
        i = 0
        while i < len(lst):
            s = lst[i]
            if isinstance(s, ast.For) and not s.orelse:
                it, drop = s.iter, False
                if isinstance(it, ast.Name) and i and isinstance(lst[i - 1], ast.Assign) and len(lst[i - 1].targets) == 1 and isinstance(lst[i - 1].targets[0], ast.Name) and lst[i - 1].targets[0].id == it.id:
                    if sum(isinstance(x, ast.Name) and x.id == it.id for x in ast.walk(fn)) == 2:
                        it, drop = lst[i - 1].value, True
                if isinstance(it, ast.IfExp) and not _leaves_loop(s.body) and (_single(it.body) is not None or _single(it.orelse) is not None) and sum(1 for x in s.body for _ in ast.walk(x)) < 200:
                    new = ast.If(it.test, self._one(s, it.body), self._one(s, it.orelse))
                    ast.fix_missing_locations(ast.copy_location(new, s))
                    lst[i] = new
                    if drop:
                        del lst[i - 1]
                        i -= 1
            i += 1

    def _one(self, s, it):
        body = copy.deepcopy(s.body)
        one = _single(it)
        if one is None:
            return [ast.copy_location(ast.For(copy.deepcopy(s.target), it, body, []), s)]
        if not one:
            return [ast.copy_location(ast.Pass(), s)]
        return [ast.copy_location(ast.Assign([copy.deepcopy(s.target)], one[0]), s)] + body


def normalise(tree: ast.Module) -> ast.Module:
    Suppress().visit(tree)
    Strings().visit(tree)
    Tables(tree).visit(tree)
    ChoiceLoops().visit(tree)
    CompLoops().visit(tree)
    return tree
