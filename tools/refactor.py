"""Behaviour-preserving rewrites against the conformance layer (development aid).

Every place of every function where a rewrite applies is rewritten (in memory) and
the facts of the rewritten function are compared with the reference; each reported
difference would be a false alarm.
"""
from __future__ import annotations

import ast
import copy
import sys
import time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from sa.conform import make  # noqa: E402
from sa.rewrite import normalise  # noqa: E402
from sa.facts import Extractor  # noqa: E402
from sa.index import Func  # noqa: E402


def stmt_lists(fn):
    """(owner path) of all statement lists."""
    out = []

    def visit(node, path):
        for name, val in ast.iter_fields(node):
            if isinstance(val, list):
                if val and isinstance(val[0], ast.stmt):
                    out.append((path, name))
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        visit(x, path + [(name, i)])
            elif isinstance(val, ast.AST):
                visit(val, path + [(name, None)])

    visit(fn, [])
    return out


def get(root, path):
    for n, i in path:
        root = getattr(root, n)
        if i is not None:
            root = root[i]
    return root


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def rewrites(fn, helpers):
    """Yield (name, new function)."""
    # rename all locals
    c = copy.deepcopy(fn)
    loc = set()
    for x in ast.walk(c):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            loc.add(x.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            loc -= set(x.names)
    glob = {n for x in ast.walk(c) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    loc -= glob
    loc -= {a.arg for a in ast.walk(c) if isinstance(a, ast.arg)}
    nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(c) if x is not c)
    if loc and not nested:
        for x in ast.walk(c):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_r"
            if isinstance(x, ast.MatchAs) and x.name in loc:
                x.name += "_r"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += "_r"
        yield "rename", c
    lists = stmt_lists(fn)
    for path, name in lists:
        body = getattr(get(fn, path), name)
        for i, s in enumerate(body):
            def fresh():
                c = copy.deepcopy(fn)
                return c, getattr(get(c, path), name)

            if isinstance(s, ast.If):
                if s.orelse:
                    c, b = fresh()
                    t = b[i]
                    t.test = ast.UnaryOp(ast.Not(), t.test)
                    t.body, t.orelse = t.orelse, t.body
                    yield "invert", c
                if ends(s.body) and not s.orelse and body[i + 1:]:
                    c, b = fresh()
                    b[i].orelse = b[i + 1:]
                    del b[i + 1:]
                    yield "else-rest", c
                if ends(s.body) and s.orelse:
                    c, b = fresh()
                    b[i + 1:i + 1] = b[i].orelse
                    b[i].orelse = []
                    yield "no-else", c
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    c, b = fresh()
                    t = b[i]
                    first = t.test.values[0]
                    rest = t.test.values[1:]
                    t.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), t.body, [])]
                    t.test = first
                    yield "nest-and", c
                if isinstance(s.test, ast.BoolOp):
                    c, b = fresh()
                    t = b[i]
                    op = ast.Or() if isinstance(t.test.op, ast.And) else ast.And()
                    t.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.test.values]))
                    yield "demorgan", c
                if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                    c, b = fresh()
                    t = b[i]
                    if not (isinstance(get(fn, path), ast.If) and name == "orelse" and len(body) == 1):
                        b.insert(i, ast.Assign([ast.Name("cond_v", ast.Store())], t.test))
                        t.test = ast.Name("cond_v", ast.Load())
                        yield "cond-var", c
                    # helper predicate
                    c, b = fresh()
                    t = b[i]
                    used = sorted(x for x in names(t.test, ast.Load) if x in local_names(fn))
                    h = ast.FunctionDef("_pred_helper", ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(t.test)], [])
                    t.test = ast.Call(ast.Name("_pred_helper", ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
                    yield "pred-helper", (c, h)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                c, b = fresh()
                v = b[i].value
                b[i] = ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
                yield "ternary-if", c
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                c, b = fresh()
                b.insert(i, ast.Assign([ast.Name("result_v", ast.Store())], b[i].value))
                b[i + 1].value = ast.Name("result_v", ast.Load())
                yield "return-var", c
                if isinstance(s.value, ast.IfExp):
                    c, b = fresh()
                    v = b[i].value
                    b[i:i + 1] = [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
                    yield "return-split", c
                if isinstance(s.value, (ast.BoolOp, ast.Compare)):
                    c, b = fresh()
                    v = b[i].value
                    if isinstance(v, ast.Compare):
                        b[i:i + 1] = [ast.If(v, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
                        yield "return-bool", c
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
                call = s.value
                for k, a in enumerate(call.args):
                    if isinstance(a, (ast.Call, ast.Subscript, ast.Attribute, ast.JoinedStr, ast.BinOp, ast.ListComp)) and not isinstance(call.func, ast.Call):
                        c, b = fresh()
                        b.insert(i, ast.Assign([ast.Name("arg_v", ast.Store())], b[i].value.args[k]))
                        b[i + 1].value.args[k] = ast.Name("arg_v", ast.Load())
                        yield "arg-var", c
            if isinstance(s, ast.For):
                # extract the body into a helper where control flow allows it
                yield from extract(fn, path, name, i, inner=True)
                if isinstance(s.target, ast.Name) and not s.orelse:
                    c, b = fresh()
                    f = b[i]
                    f.target = ast.Tuple([ast.Name("_idx", ast.Store()), f.target], ast.Store())
                    f.iter = ast.Call(ast.Name("enumerate", ast.Load()), [f.iter], [])
                    yield "enumerate", c
                    c, b = fresh()
                    f = b[i]
                    f.iter = ast.Call(ast.Name("list", ast.Load()), [f.iter], [])
                    yield "list-iter", c
                # guard clause with continue
                if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                    c, b = fresh()
                    t = b[i].body[0]
                    b[i].body = [ast.If(ast.UnaryOp(ast.Not(), t.test), [ast.Continue()], [])] + t.body
                    yield "guard-continue", c
                # append loop to comprehension
                if len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append" and not s.orelse:
                    c, b = fresh()
                    f = b[i]
                    call = f.body[0].value
                    b[i] = ast.Expr(ast.Call(ast.Attribute(call.func.value, "extend", ast.Load()), [ast.GeneratorExp(call.args[0], [ast.comprehension(f.target, f.iter, [], 0)])], []))
                    yield "append-extend", c
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and len(s.value.generators) == 1:
                c, b = fresh()
                lc = b[i].value
                tgt = s.targets[0].id
                app = ast.Expr(ast.Call(ast.Attribute(ast.Name(tgt, ast.Load()), "append", ast.Load()), [lc.elt], []))
                inner = [app]
                for cond in reversed(lc.generators[0].ifs):
                    inner = [ast.If(cond, inner, [])]
                b[i:i + 1] = [ast.Assign([ast.Name(tgt, ast.Store())], ast.List([], ast.Load())), ast.For(lc.generators[0].target, lc.generators[0].iter, inner, [])]
                yield "comp-loop", c
            if isinstance(s, ast.Match):
                r = match_to_if(s)
                if r is not None:
                    c, b = fresh()
                    b[i:i + 1] = r
                    yield "match-if", c
            if isinstance(s, (ast.If, ast.With)) or isinstance(s, ast.Assign):
                yield from extract(fn, path, name, i)
        # reorder independent neighbours
        for i in range(len(body) - 1):
            a, b2 = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and isinstance(b2, ast.Assign) and simple(a) and simple(b2):
                if not (names(a, ast.Store) & (names(b2, ast.Load) | names(b2, ast.Store))) and not (names(b2, ast.Store) & names(a, ast.Load)):
                    c = copy.deepcopy(fn)
                    b = getattr(get(c, path), name)
                    b[i], b[i + 1] = b[i + 1], b[i]
                    yield "swap-assign", c
    # string forms
    for n in ast.walk(fn):
        pass
    c = copy.deepcopy(fn)
    ch = FStr()
    c = ch.visit(c)
    if ch.n:
        yield "fstring-format", c
    c = copy.deepcopy(fn)
    m = Member()
    c = m.visit(c)
    if m.n:
        yield "member-eq", c
    c = copy.deepcopy(fn)
    k = ToKeyword(helpers)
    c = k.visit(c)
    if k.n:
        yield "to-keyword", c


def simple(a):
    return all(isinstance(t, ast.Name) for t in a.targets) and not any(isinstance(x, ast.Call) for x in ast.walk(a.value))


def local_names(fn):
    out = names(fn, ast.Store)
    for a in ast.walk(fn):
        if isinstance(a, ast.arg):
            out.add(a.arg)
        if isinstance(a, (ast.FunctionDef,)) and a is not fn:
            out.add(a.name)
        if isinstance(a, ast.ExceptHandler) and a.name:
            out.add(a.name)
        if isinstance(a, (ast.MatchAs, ast.MatchStar)) and a.name:
            out.add(a.name)
        if isinstance(a, ast.MatchMapping) and a.rest:
            out.add(a.rest)
    return out


def extract(fn, path, name, i, inner=False):
    """Move a statement (or the body of a loop) into a helper function."""
    s = getattr(get(fn, path), name)[i]
    block = s.body if inner else [s]
    bad = (ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda, ast.NamedExpr, ast.Delete, ast.Await)
    for x in block:
        for y in ast.walk(x):
            if isinstance(y, bad):
                return
    loops = set()
    for x in block:
        for y in ast.walk(x):
            if isinstance(y, (ast.For, ast.While)):
                for z in ast.walk(y):
                    loops.add(id(z))
    for x in block:
        for y in ast.walk(x):
            if isinstance(y, (ast.Break, ast.Continue)) and id(y) not in loops:
                return
    if {n for y in ast.walk(fn) if isinstance(y, ast.Global) for n in y.names} & {z.id for x in block for z in ast.walk(x) if isinstance(z, ast.Name)}:
        return
    loc = local_names(fn)
    used = set()
    stored = set()
    for x in block:
        used |= names(x, ast.Load) & loc
        stored |= names(x, ast.Store)
    if inner:
        # variables carried between iterations would need passing through
        if stored:
            if stored & names_outside(fn, block):
                return
    else:
        pass
    outs = sorted(stored & names_outside(fn, block))
    used |= set(outs) & defined_before(fn, block)
    c = copy.deepcopy(fn)
    tgt = getattr(get(c, path), name)
    cs = tgt[i]
    cblock = cs.body if inner else [cs]
    if not inner and isinstance(s, ast.If) and outs and not set(outs) <= defined_before(fn, block):
        return
    if any(isinstance(x, ast.ExceptHandler) for y in block for x in ast.walk(y)):
        return
    ps = sorted(used - (stored - defined_before(fn, block)) if not inner else used - stored | (names_target(s) & used))
    h = ast.FunctionDef("_extracted_helper", ast.arguments([], [ast.arg(u) for u in ps], None, [], [], None, []), copy.deepcopy(cblock), [])
    call = ast.Call(ast.Name("_extracted_helper", ast.Load()), [ast.Name(u, ast.Load()) for u in ps], [])
    if outs:
        if len(outs) == 1:
            h.body.append(ast.Return(ast.Name(outs[0], ast.Load())))
            new = ast.Assign([ast.Name(outs[0], ast.Store())], call)
        else:
            h.body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())))
            new = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)
    else:
        new = ast.Expr(call)
    if inner:
        cs.body = [new]
    else:
        tgt[i] = new
    yield ("extract-body" if inner else "extract"), (c, h)


def names_target(s):
    return {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()


def names_outside(fn, block):
    ids = {id(y) for x in block for y in ast.walk(x)}
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in ids and isinstance(x.ctx, ast.Load)}


def defined_before(fn, block):
    line = block[0].lineno
    out = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < line:
            out.add(x.id)
    return out


class FStr(ast.NodeTransformer):
    n = 0

    def visit_JoinedStr(self, node):
        fmt = ""
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None:
                    return node
                fmt += "{!r}" if v.conversion == 114 else "{}"
                args.append(v.value)
        self.n += 1
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


class Member(ast.NodeTransformer):
    n = 0

    def visit_Compare(self, node):
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.In) and isinstance(node.comparators[0], (ast.Tuple, ast.List, ast.Set)) and not any(isinstance(x, ast.Call) for x in ast.walk(node.left)):
            self.n += 1
            return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(node.left), [ast.Eq()], [e]) for e in node.comparators[0].elts])
        return node


class ToKeyword(ast.NodeTransformer):
    def __init__(self, helpers):
        self.h = helpers
        self.n = 0

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.h and not any(isinstance(a, ast.Starred) for a in node.args):
            ps = self.h[node.func.id]
            if len(node.args) <= len(ps) and node.args:
                node.keywords = [ast.keyword(p, a) for p, a in zip(ps, node.args)] + node.keywords
                node.args = []
                self.n += 1
        return node


def match_to_if(s):
    subj = s.subject
    if not isinstance(subj, (ast.Name, ast.Attribute, ast.Subscript)):
        return None
    chain = []
    for case in s.cases:
        p = case.pattern
        t = pat(p, subj)
        if t is None:
            return None
        if case.guard is not None:
            t = ast.BoolOp(ast.And(), [t, case.guard])
        chain.append((t, case.body))
    out = []
    for t, b in reversed(chain):
        if isinstance(t, ast.Constant):
            out = b
        else:
            out = [ast.If(t, b, out)]
    return out


def pat(p, subj):
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subj, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
        return ast.Constant(True)
    if isinstance(p, ast.MatchOr):
        xs = [pat(x, subj) for x in p.patterns]
        return None if any(x is None for x in xs) else ast.BoolOp(ast.Or(), xs)
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])
    return None


def main():
    pat_ = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else None
    verbose = "-v" in sys.argv
    c = make()
    tot = bad = 0
    t0 = time.time()
    from collections import Counter
    per = Counter()
    perbad = Counter()
    for q in sorted(c.shared):
        if pat_ not in q:
            continue
        f = c.nf[q]
        helpers = {n: [x.arg for x in h.node.args.args] for n, h in f.module.funcs.items() if not h.node.args.vararg}
        seen = set()
        for nm, r in rewrites(f.node, helpers):
            if only and nm != only:
                continue
            h = None
            if isinstance(r, tuple):
                r, h = r
            ast.fix_missing_locations(r)
            key = ast.dump(r) + (ast.dump(h) if h else "")
            if key in seen:
                continue
            seen.add(key)
            m = f.module
            if h is not None:
                ast.fix_missing_locations(h)
                h = ast.parse(ast.unparse(ast.fix_missing_locations(h))).body[0]
                m.funcs[h.name] = Func(f"{m.name}.{h.name}", m, h)
            src = ast.unparse(r)
            node = normalise(ast.parse(src)).body[0]
            g = Func(f.qual, m, node, f.cls)
            x = Extractor(c.new, c.isshared)
            x._purity = dict(c.xn._purity)
            y = Extractor(c.new, c.isshared, expand=False)
            y._purity = dict(c.yn._purity)
            try:
                d = c.judge(q, c.rf[q], g, None, x, y)
            except Exception as e:  # noqa: BLE001
                import traceback
                traceback.print_exc()
                print("CRASH", q, nm, repr(e)[:300])
                d = []
            if h is not None:
                del m.funcs[h.name]
            tot += 1
            per[nm] += 1
            if d:
                bad += 1
                perbad[nm] += 1
                print(f"ALARM {q} {nm}: {len(d)}")
                if verbose:
                    for y in d[:4]:
                        print("     ", y.kind, y.text[:500], "|", y.detail[:400])
                    import difflib
                    for ln in list(difflib.unified_diff(ast.unparse(f.node).split("\n"), src.split("\n"), lineterm="", n=0))[2:14]:
                        print("        ", ln)
                    if h is not None:
                        print("        H ", ast.unparse(h)[:600])
    print(f"TOTAL alarms {bad}/{tot} in {time.time() - t0:.0f}s", {k: (perbad[k], v) for k, v in per.items()})


main()
