"""Mutation sweep of the conformance layer (development aid; nothing is executed).

For each function small syntactic faults are put into a copy of its module and the
facts of the mutated function are compared with the reference.  Printed: the faults
that leave the facts unchanged (equivalent, or missed).
"""
from __future__ import annotations

import ast
import copy
import sys
import time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from sa.conform import make, signature_shape  # noqa: E402
from sa.rewrite import normalise  # noqa: E402
from sa.facts import Extractor  # noqa: E402
from sa.index import Class, Func  # noqa: E402


def mutants(fn: ast.FunctionDef):
    """Yield (description, mutated copy)."""
    nodes = list(ast.walk(fn))
    paths = []

    def visit(node, path):
        for name, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        paths.append((path + [(name, i)], x))
                        visit(x, path + [(name, i)])
            elif isinstance(val, ast.AST):
                paths.append((path + [(name, None)], val))
                visit(val, path + [(name, None)])

    visit(fn, [])

    def get(root, path):
        for n, i in path:
            root = getattr(root, n)
            if i is not None:
                root = root[i]
        return root

    def put(root, path, new):
        par = get(root, path[:-1])
        n, i = path[-1]
        if i is None:
            setattr(par, n, new)
        else:
            getattr(par, n)[i] = new

    def mk(path, f, desc):
        c = copy.deepcopy(fn)
        x = get(c, path)
        r = f(x)
        if r is None:
            return None
        if r is not x:
            put(c, path, r)
        ast.fix_missing_locations(c)
        return (f"{getattr(get(fn, path), 'lineno', '?')}: {desc}", c)

    for path, n in paths:
        if path[0][0] in ("decorator_list", "args", "returns"):
            continue
        if any(p[0] in ("annotation", "returns") for p in path):
            continue
        u = ast.unparse(n)[:90].replace("\n", " ")
        if isinstance(n, ast.If):
            yield mk(path, lambda x: (setattr(x, "test", ast.UnaryOp(ast.Not(), x.test)), x)[1], f"negate if {u}")
            yield mk(path, lambda x: (setattr(x, "test", ast.Constant(True)), x)[1], f"always {u}")
            yield mk(path, lambda x: (setattr(x, "test", ast.Constant(False)), x)[1], f"never {u}")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Return)) and path[-1][1] is not None:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if "_logger.debug" in u or "_logger.info" in u:
                continue
            yield mk(path, lambda x: ast.Pass(), f"delete {u}")
        if isinstance(n, ast.For):
            yield mk(path, lambda x: (x.body.append(ast.Break()), x)[1], f"only first {u}")
        if isinstance(n, ast.BoolOp):
            yield mk(path, lambda x: (setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()), x)[1], f"swap and/or {u}")
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    def drop(x, i=i):
                        del x.values[i]
                        return x.values[0] if len(x.values) == 1 else x
                    yield mk(path, drop, f"drop operand {i} of {u}")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {"Eq": ast.NotEq, "NotEq": ast.Eq, "Lt": ast.LtE, "LtE": ast.Lt, "Gt": ast.GtE, "GtE": ast.Gt, "In": ast.NotIn, "NotIn": ast.In, "Is": ast.IsNot, "IsNot": ast.Is}
            yield mk(path, lambda x: (x.ops.__setitem__(0, sw[type(x.ops[0]).__name__]()), x)[1], f"flip {u}")
        if isinstance(n, ast.Constant) and path[-1][0] != "keywords":
            if isinstance(n.value, str) and n.value and not isinstance(get(fn, path[:-1]), ast.Expr):
                if any(isinstance(get(fn, path[:k]), ast.Raise) for k in range(1, len(path))):
                    continue
                yield mk(path, lambda x: (setattr(x, "value", x.value + "_x"), x)[1], f"string {u}")
            elif isinstance(n.value, bool):
                yield mk(path, lambda x: (setattr(x, "value", not x.value), x)[1], f"bool {u}")
            elif isinstance(n.value, int):
                yield mk(path, lambda x: (setattr(x, "value", x.value + 1), x)[1], f"int {u}")
        if isinstance(n, ast.Call):
            if any(isinstance(get(fn, path[:k]), ast.Raise) for k in range(1, len(path))):
                continue
            if "_logger." in u:
                continue
            if len(n.args) >= 2:
                yield mk(path, lambda x: (x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]), x)[1], f"swap args {u}")
            for i in range(len(n.keywords)):
                if n.keywords[i].arg in ("help", "description"):
                    continue
                yield mk(path, lambda x, i=i: (x.keywords.pop(i), x)[1], f"drop keyword {i} {u}")
            if n.args and len(n.args) >= 2:
                yield mk(path, lambda x: (x.args.pop(), x)[1], f"drop last arg {u}")
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for gi, g in enumerate(n.generators):
                if g.ifs:
                    yield mk(path, lambda x, gi=gi: (setattr(x.generators[gi], "ifs", []), x)[1], f"drop filter {u}")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield mk(path, lambda x: (setattr(x, "value", ast.Constant(None)), x)[1], f"return None {u}")
        if isinstance(n, (ast.For, ast.If, ast.While)) and path[-1][1] is not None:
            # dedent: last statement of the body after the block
            if len(n.body) > 1:
                def ded(c, path=path):
                    par = get(c, path[:-1])
                    lst = getattr(par, path[-1][0])
                    x = lst[path[-1][1]]
                    s = x.body.pop()
                    lst.insert(path[-1][1] + 1, s)
                    return c
                c = copy.deepcopy(fn)
                if not isinstance(n.body[-1], (ast.Break, ast.Continue)):
                    ded(c)
                    ast.fix_missing_locations(c)
                    yield (f"{n.lineno}: dedent last of {u}", c)


ATTRS = {"inputs": "outputs", "outputs": "inputs", "hints": "requirements", "requirements": "hints", "id": "label", "fileuri": "baseuri",
         "stdout": "stderr", "stderr": "stdout", "stdin": "stdout", "append": "extend", "extend": "append", "items": "keys", "startswith": "endswith",
         "endswith": "startswith", "split": "rsplit", "lstrip": "rstrip", "deepcopy": "copy", "source": "valueFrom", "add": "discard"}


def mutants2(fn: ast.FunctionDef):
    """Faults in the flow of values and the order of statements."""
    names = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs if a.arg not in ("self", "cls")]
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names:
            names.append(n.id)
    nodes = list(ast.walk(fn))
    inraise = {id(y) for x in nodes if isinstance(x, ast.Raise) for y in ast.walk(x)}
    inann = {id(y) for x in nodes for f in ("annotation", "returns") if getattr(x, f, None) is not None for y in ast.walk(getattr(x, f))}
    inlog = {id(y) for x in nodes if isinstance(x, ast.Call) and ("_logger" in ast.unparse(x.func) or ast.unparse(x.func) == "cast") for y in ast.walk(x)}

    def at(k):
        c = copy.deepcopy(fn)
        return c, list(ast.walk(c))[k]

    def parent(c, x):
        for y in ast.walk(c):
            for name, val in ast.iter_fields(y):
                if val is x:
                    return y, name, None
                if isinstance(val, list):
                    for i, z in enumerate(val):
                        if z is x:
                            return y, name, i

    def repl(c, x, new):
        y, name, i = parent(c, x)
        if i is None:
            setattr(y, name, new)
        else:
            getattr(y, name)[i] = new

    for k, n in enumerate(nodes):
        if id(n) in inraise or id(n) in inann or id(n) in inlog:
            continue
        ln = getattr(n, "lineno", "?")
        u = ast.unparse(n)[:80].replace("\n", " ") if hasattr(n, "lineno") else ""
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
            c, x = at(k)
            repl(c, x, x.args[0])
            yield f"{ln}: unwrap {u}", c
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            c, x = at(k)
            repl(c, x, x.func.value)
            yield f"{ln}: receiver of {u}", c
        if isinstance(n, ast.Attribute) and n.attr in ATTRS:
            c, x = at(k)
            x.attr = ATTRS[n.attr]
            yield f"{ln}: {u} -> {ATTRS[n.attr]}", c
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            i = names.index(n.id)
            for o in {names[i - 1], names[(i + 1) % len(names)]} - {n.id}:
                c, x = at(k)
                x.id = o
                yield f"{ln}: name {n.id} -> {o} #{k}", c
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(n, f) is not None:
                    c, x = at(k)
                    setattr(x, f, None)
                    yield f"{ln}: slice without {f} {u}", c
        if isinstance(n, ast.IfExp):
            for f in ("body", "orelse"):
                c, x = at(k)
                repl(c, x, getattr(x, f))
                yield f"{ln}: only {f} of {u}", c
        if isinstance(n, ast.Continue):
            c, x = at(k)
            repl(c, x, ast.Break())
            yield f"{ln}: continue -> break", c
        if isinstance(n, ast.Break):
            c, x = at(k)
            repl(c, x, ast.Continue())
            yield f"{ln}: break -> continue", c
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for i in range(len(b) - 1):
                if isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Constant):
                    continue
                c, x = at(k)
                y = getattr(x, f)
                y[i], y[i + 1] = y[i + 1], y[i]
                yield f"{b[i].lineno}: swap with next {ast.unparse(b[i])[:60]!r}", c
                if isinstance(b[i], (ast.For, ast.If, ast.While, ast.With)):
                    c, x = at(k)
                    y = getattr(x, f)
                    y[i].body.append(y.pop(i + 1))
                    yield f"{b[i + 1].lineno}: indent into previous {ast.unparse(b[i + 1])[:60]!r}", c
                if isinstance(b[i], ast.If) and isinstance(b[i + 1], ast.If) and not b[i].orelse:
                    c, x = at(k)
                    y = getattr(x, f)
                    y[i].orelse = [y.pop(i + 1)]
                    yield f"{b[i + 1].lineno}: if -> elif {ast.unparse(b[i + 1].test)[:60]!r}", c
        if isinstance(n, ast.For) and len(n.body) > 1:
            c, x = at(k)
            y, name, i = parent(c, x)
            s = x.body.pop(0)
            getattr(y, name).insert(i, s)
            yield f"{ln}: hoist first of {u}", c


def main():
    pat = sys.argv[1]
    make_mutants = mutants2 if "-2" in sys.argv else mutants
    verbose = "-v" in sys.argv
    c = make()
    tot = miss = 0
    t0 = time.time()
    for q in sorted(c.shared):
        if pat not in q:
            continue
        f = c.nf[q]
        n = m = 0
        missed = []
        for item in make_mutants(f.node):
            if item is None:
                continue
            desc, node = item
            ast.fix_missing_locations(node)
            node = normalise(ast.Module([node], [])).body[0]
            g = Func(f.qual, f.module, node, f.cls)
            x = Extractor(c.new, c.isshared)
            x._purity = c.xn._purity
            y = Extractor(c.new, c.isshared, expand=False)
            y._purity = c.yn._purity
            try:
                d = c.differ(q, c.rf[q], g, None, None, x, y)
            except Exception as e:  # noqa: BLE001
                print("CRASH", q, desc, repr(e)[:200])
                continue
            n += 1
            if not d:
                m += 1
                missed.append(desc)
        tot += n
        miss += m
        if n:
            print(f"{q}: {n - m}/{n}")
        if verbose:
            for d in missed:
                print("    ", d)
    print(f"TOTAL {tot - miss}/{tot} in {time.time() - t0:.0f}s")


main()
