"""Absolute rules over control flow, calls and resources (no reference involved)."""
from __future__ import annotations

import ast
import json
import re
import shutil
import subprocess
from pathlib import Path

from . import engine as E
from . import salad
from .engine import callee, fmt_guards, walk
from .index import Class, Func, dotted
from .rules import Res

VERSIONS = salad.VERSIONS


# --------------------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------------------
def own_nodes(fn, nested=True):
    """Nodes of a function's body; nested functions included if asked for."""
    todo = list(fn.body)
    while todo:
        n = todo.pop(0)
        yield n
        if not nested and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def enclosing(n, par, kinds):
    while n in par:
        c, n = n, par[n]
        if isinstance(n, kinds):
            yield n, c


_CACHE: dict = {}


def _fn_imports(fn):
    k = (id(fn), "imp")
    if k not in _CACHE:
        _CACHE[k] = (fn, [s for s in ast.walk(fn) if isinstance(s, (ast.Import, ast.ImportFrom))])
    return _CACHE[k][1]


def _fn_stores(fn):
    k = (id(fn), "st")
    if k not in _CACHE:
        _CACHE[k] = (fn, {s.id for s in ast.walk(fn) if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store)} | {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs})
    return _CACHE[k][1]


_LAST = {"run", "Popen", "call", "check_call", "check_output", "system", "popen", "getoutput", "getstatusoutput", "spawn", "eval", "exec", "compile", "__import__", "load", "loads", "open", "run_path", "run_module",
         "interact", "unsafe_load", "full_load", "decode", "CDLL", "import_module", "YAML"}


def _interesting(c):
    d = dotted(c.func)
    if d is None:
        return False
    x = d.rsplit(".", 1)[-1]
    return x in _LAST or x.startswith(("exec", "spawn", "posix_spawn", "create_subprocess", "Process"))


def resolve_call(ix, m, call, fn=None):
    d = dotted(call.func)
    if d is None:
        return None
    if fn is not None:
        root = d.split(".")[0]
        if root in _fn_stores(fn):
            return None
        # an import inside the function
        for s in _fn_imports(fn):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name.split(".")[0]) == d.split(".")[0]:
                        return (a.name if a.asname else a.name.split(".")[0]) + d[len(d.split(".")[0]):]
            if isinstance(s, ast.ImportFrom) and s.module and s.level == 0:
                for a in s.names:
                    if (a.asname or a.name) == d.split(".")[0]:
                        return f"{s.module}.{a.name}" + d[len(d.split(".")[0]):]
    return ix.resolve(m, d) or d


def package_functions(ix):
    for n in ix.all_module_names():
        if ".tests" in n:
            continue
        m = ix.module(n)
        yield from ((m, f) for f in ix.all_functions(m))


def loc(m, node):
    return f"{m.rel()}:{node.lineno}"


def const_value(ix, m, node, depth=0):
    """A number or text that is fixed in the source, or None."""
    if depth > 6 or node is None:
        return None
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.BinOp):
        a, b = const_value(ix, m, node.left, depth + 1), const_value(ix, m, node.right, depth + 1)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Pow: lambda: a ** b if b < 64 else None,
                        ast.LShift: lambda: a << b if b < 64 else None, ast.FloorDiv: lambda: a // b}.get(type(node.op), lambda: None)()
            except (ZeroDivisionError, TypeError):
                return None
    d = dotted(node)
    if d:
        q = ix.resolve(m, d)
        mm = ix.module_of(q) if q else None
        if mm is not None and q.rsplit(".", 1)[-1] in mm.consts and mm.multi.get(q.rsplit(".", 1)[-1], 1) < 2:
            return const_value(ix, mm, mm.consts[q.rsplit(".", 1)[-1]], depth + 1)
    return None


# --------------------------------------------------------------------------------------
# C08: nothing collected is dropped
# --------------------------------------------------------------------------------------
_COPY = (ast.Name, ast.BinOp, ast.Add, ast.Load, ast.Store, ast.List, ast.Tuple, ast.Starred, ast.BoolOp, ast.Or, ast.And, ast.Compare, ast.Constant, ast.NotEq, ast.Gt, ast.GtE, ast.IfExp, ast.ListComp,
         ast.JoinedStr, ast.FormattedValue, ast.NamedExpr)
_COPY_CALLS = {"len", "list", "sorted", "bool", "any", "tuple", "set", "join", "strip_dup_lineno", "chain", "strip", "str", "cast", "format", "reversed"}


def _copy_names(n):
    """Names whose value (or emptiness) is carried over into the value of n."""
    if isinstance(n, ast.Name):
        return {n.id}
    if isinstance(n, ast.Call):
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if nm not in _COPY_CALLS:
            return set()
        out = set()
        for a in n.args:
            out |= _copy_names(a.value if isinstance(a, ast.Starred) else a)
        return out
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        out = set()
        for g in n.generators:
            out |= _copy_names(g.iter)
        return out
    if isinstance(n, (ast.Subscript, ast.Attribute)):
        return set()
    out = set()
    for c in ast.iter_child_nodes(n):
        if isinstance(c, ast.expr):
            out |= _copy_names(c)
    return out


def _copy_env(fn):
    env: dict = {}
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    env.setdefault(t.id, set()).update(_copy_names(n.value))
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
            env.setdefault(n.target.id, set()).update(_copy_names(n.value))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            env.setdefault(n.target.id, set()).update(_copy_names(n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("extend",) and isinstance(n.func.value, ast.Name) and n.args:
            env.setdefault(n.func.value.id, set()).update(_copy_names(n.args[0]))
    return env


def _closure(names, env):
    seen, todo = set(), list(names)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(env.get(x, ()))
    return seen


def rule_collected_reported(ctx):
    r = Res("a list of problems that is filled in loops and ends up in the message of an error is raised whenever any of those loops added to it: the test of the raise depends on the list or on the source of each filling loop")
    ix = ctx.ix
    for n in ix.all_module_names():
        if ".tests" in n or re.search(r"parser\.cwl_v1_\d$", n):
            continue
        m = ix.module(n)
        for f in ix.all_functions(m):
            fn, par, env = f.node, parents(f.node), _copy_env(f.node)
            fills: dict = {}
            for c in own_nodes(fn):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "insert", "add") and isinstance(c.func.value, ast.Name):
                    for lp, _ in enclosing(c, par, (ast.For,)):
                        fills.setdefault(c.func.value.id, []).append(lp)
                        break
            if not fills:
                continue
            for rs in own_nodes(fn):
                if not isinstance(rs, ast.Raise) or rs.exc is None:
                    continue
                msg = _closure(set().union(*[_copy_names(a) for a in getattr(rs.exc, "args", [])] or [set()]), env)
                acc = [a for a in fills if a in msg]
                if not acc:
                    continue
                tests = [i.test for i, ch in enclosing(rs, par, (ast.If,)) if ch in i.body]
                if not tests:
                    continue
                dep = set()
                for t in tests:
                    dep |= _closure(_copy_names(t) | names_in(t), env)
                for a in acc:
                    for lp in fills[a]:
                        if any(l is lp for l, _ in enclosing(rs, par, (ast.For,))):
                            continue
                        r.ob(f"{f.qual}: {a} filled from {ast.unparse(lp.iter)[:50]}")
                        src = _copy_names(lp.iter)
                        if a not in dep and not (src & dep):
                            r.bad("collected-dropped", f.qual, loc(m, rs), f"problems collected in {a} from {ast.unparse(lp.iter)[:60]} do not lead to the error",
                                  f"the raise is made if {ast.unparse(tests[0])[:120]}")
    return r


# --------------------------------------------------------------------------------------
# C09: both operands are compared
# --------------------------------------------------------------------------------------
_RELATIONS = {"_compare_type", "can_assign_src_to_sink", "_compare_records", "check_types"}


def rule_both_operands(ctx):
    r = Res("no comparison and no call of a type relation has the same expression as source and as sink, and each relation uses both of its operands")
    ix = ctx.ix
    for n in ix.all_module_names():
        if not re.search(r"parser\.(utils|cwl_v1_\d_utils)$", n):
            continue
        m = ix.module(n)
        for f in ix.all_functions(m):
            for c in own_nodes(f.node):
                if isinstance(c, ast.Compare) and len(c.ops) == 1:
                    r.ob()
                    if ast.dump(c.left) == ast.dump(c.comparators[0]) and not isinstance(c.left, ast.Constant):
                        r.bad("same-operands", f.qual, loc(m, c), f"{ast.unparse(c)[:100]} compares a value with itself")
                if isinstance(c, ast.Call):
                    nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
                    if nm in _RELATIONS and len(c.args) >= 2:
                        r.ob(f"{f.qual}: {ast.unparse(c)[:80]}")
                        if ast.dump(c.args[0]) == ast.dump(c.args[1]):
                            r.bad("same-operands", f.qual, loc(m, c), f"{ast.unparse(c)[:100]} relates a type to itself")
            if f.name in _RELATIONS and len(f.params()) >= 2:
                used = {x.id for x in own_nodes(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                for p in f.params()[:2]:
                    r.ob()
                    if p not in used:
                        r.bad("operand-unused", f.qual, loc(m, f.node), f"operand {p} is never looked at")
    return r


# --------------------------------------------------------------------------------------
# C12: bounded reads
# --------------------------------------------------------------------------------------
def rule_bounded_reads(ctx):
    r = Res("every read of a stream in the per-version helpers has a constant bound of 64 KiB (v1.2: one byte more, and an error when it is used)")
    ix = ctx.ix
    for v in VERSIONS:
        m = ix.module(f"cwl_utils.parser.cwl_{v}_utils")
        if m is None:
            continue
        over = 0
        for f in ix.all_functions(m):
            for c in own_nodes(f.node):
                if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("read", "readlines", "readall", "read_bytes", "read_text", "getvalue")):
                    continue
                arg = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "size"), None)
                val = const_value(ix, m, arg)
                r.ob(f"{f.qual}: {ast.unparse(c)[:60]} = {val}")
                if arg is None or c.func.attr != "read":
                    r.bad("unbounded-read", f.qual, loc(m, c), f"{ast.unparse(c)[:80]} reads the whole stream")
                elif isinstance(val, int):
                    if val < 0:
                        r.bad("unbounded-read", f.qual, loc(m, c), f"{ast.unparse(c)[:80]} reads the whole stream")
                    elif val > 65536 + (v == "v1_2"):
                        r.bad("read-over-limit", f.qual, loc(m, c), f"{ast.unparse(c)[:80]} reads {val} bytes, more than 64 KiB")
                    elif val < 65536 + (v == "v1_2"):
                        r.bad("read-under-limit", f.qual, loc(m, c), f"{ast.unparse(c)[:80]} reads {val} bytes, less than " + ("64 KiB" if v != "v1_2" else "needed to notice a file over 64 KiB"))
                    if val == 65537 and v == "v1_2":
                        over += 1
                        if not any(isinstance(x, ast.Raise) for x in own_nodes(f.node)) and not _calls_raiser(ix, m, f):
                            r.bad("no-limit-error", f.qual, loc(m, c), "a file over 64 KiB is read but no error is raised for it")
    return r


def _calls_raiser(ix, m, f):
    for c in own_nodes(f.node):
        if isinstance(c, ast.Call):
            t = ix.lookup(resolve_call(ix, m, c) or "")
            if isinstance(t, Func) and any(isinstance(x, ast.Raise) for x in own_nodes(t.node)):
                return True
    return False


# --------------------------------------------------------------------------------------
# C13: requirements and hints
# --------------------------------------------------------------------------------------
def rule_both_lists(ctx):
    r = Res("whatever object's requirements an extraction reads, it reads that object's hints as well, and the reverse")
    ix = ctx.ix
    for n in ("cwl_utils.docker_extract", "cwl_utils.cite_extract"):
        m = ix.module(n)
        for f in ix.all_functions(m):
            by: dict = {}
            for x in own_nodes(f.node):
                nm = None
                if isinstance(x, ast.Attribute) and x.attr in ("requirements", "hints"):
                    nm, base = x.attr, ast.dump(x.value)
                elif isinstance(x, ast.Call) and getattr(x.func, "id", "") == "getattr" and len(x.args) > 1:
                    if isinstance(x.args[1], ast.Constant) and x.args[1].value in ("requirements", "hints"):
                        nm, base = x.args[1].value, ast.dump(x.args[0])
                if nm:
                    by.setdefault(base, {})[nm] = x
            for base, d in by.items():
                r.ob(f"{f.qual}: {sorted(d)}")
                if len(d) == 1:
                    k, x = next(iter(d.items()))
                    if not _other_elsewhere(ix, m, f, "hints" if k == "requirements" else "requirements"):
                        r.bad("one-list", f.qual, loc(m, x), f"only {k} of {ast.unparse(x)[:50]} are looked at")
    return r


def _other_elsewhere(ix, m, f, other):
    """A function split in two: the other list is read by a sibling that is called where this one is."""
    return any(isinstance(x, ast.Attribute) and x.attr == other or isinstance(x, ast.Constant) and x.value == other for g in ix.all_functions(m) if g.qual != f.qual for x in own_nodes(g.node))


# --------------------------------------------------------------------------------------
# C14, C15: child processes and host code
# --------------------------------------------------------------------------------------
_SUB = {"subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_call", "subprocess.check_output"}
_SHELLS = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput", "pty.spawn", "asyncio.create_subprocess_shell"}
_OTHER = re.compile(r"^os\.(exec|spawn|posix_spawn)|^asyncio\.create_subprocess|^multiprocessing\.|^platform\.popen")
_HOST = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "pickle.load", "pickle.loads", "marshal.load", "marshal.loads", "dill.load", "dill.loads", "shelve.open", "runpy.run_path",
         "runpy.run_module", "code.interact", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "jsonpickle.decode", "ctypes.CDLL", "importlib.import_module"}


def process_calls(ix):
    for m, f in package_functions(ix):
        if re.search(r"parser\.cwl_v1_\d$", m.name):
            if "subprocess" not in m.source and "os.system" not in m.source:
                continue
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and (_interesting(c) or isinstance(c.func, ast.Name)):
                q = resolve_call(ix, m, c, f.node)
                if q in _SUB or q in _SHELLS or q and _OTHER.match(q):
                    yield m, f, c, q
    for n in ix.all_module_names():
        m = ix.module(n)
        if ".tests" in n or "subprocess" not in m.source and "os." not in m.source:
            continue
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for c in ast.walk(s):
                    if isinstance(c, ast.Call):
                        q = resolve_call(ix, m, c)
                        if q in _SUB or q in _SHELLS or q and _OTHER.match(q):
                            yield m, None, c, q


def _vector(ix, m, f, node, depth=0):
    """Is this expression an argument vector: 'list', 'text', or '?' when unknown."""
    if isinstance(node, (ast.List, ast.Tuple, ast.ListComp)):
        return "list"
    if isinstance(node, (ast.JoinedStr,)) or isinstance(node, ast.Constant) and isinstance(node.value, str):
        return "text"
    if isinstance(node, ast.BinOp):
        a, b = _vector(ix, m, f, node.left, depth + 1), _vector(ix, m, f, node.right, depth + 1)
        if isinstance(node.op, ast.Mod) and a == "text":
            return "text"
        return a if a != "?" else b
    if isinstance(node, ast.Call):
        nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
        if nm in ("list", "tuple", "split"):
            return "list"
        if nm in ("join", "format", "str", "quote"):
            return "text"
        return "?"
    if isinstance(node, ast.Name) and depth < 5 and f is not None:
        vals = set()
        for s in own_nodes(f.node):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in s.targets):
                vals.add(_vector(ix, m, f, s.value, depth + 1))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == node.id:
                vals.add(_vector(ix, m, f, s.value, depth + 1) if s.value is not None else "?")
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == node.id and p.annotation is not None:
                t = ast.unparse(p.annotation)
                vals.add("list" if re.search(r"\b(list|List|Sequence|tuple)\b", t) else "text" if t in ("str",) else "?")
        if vals == {"list"}:
            return "list"
        if "text" in vals:
            return "text"
    return "?"


def rule_no_shell(ctx):
    r = Res("every call that starts a process passes an argument vector and no shell")
    ix = ctx.ix
    for m, f, c, q in process_calls(ix):
        who = f.qual if f else m.name
        v = _vector(ix, m, f, c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "args"), ast.Constant(None)))
        r.ob(f"{who}: {q}({v})")
        if q in _SHELLS:
            r.bad("shell", who, loc(m, c), f"{q} runs a command line in a shell")
            continue
        for k in c.keywords:
            if k.arg == "shell" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                r.bad("shell", who, loc(m, c), f"{q} is called with shell={ast.unparse(k.value)}")
            if k.arg == "executable":
                r.bad("shell", who, loc(m, c), f"{q} replaces the program with {ast.unparse(k.value)}")
        if v == "text":
            r.bad("command-text", who, loc(m, c), f"{q} gets a command text instead of an argument vector")
    if r.n < 8:
        r.extra["notice"] = f"only {r.n} process starting calls found (16 at the time of writing)"
    return r


def rule_no_host_code(ctx):
    r = Res("no function of the package evaluates text as Python code, unpickles, or loads YAML with an unsafe loader")
    ix = ctx.ix
    for m, f in package_functions(ix):
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call) or not _interesting(c) and not (isinstance(c.func, ast.Name) and c.func.id in m.imports):
                continue
            q = resolve_call(ix, m, c, f.node) or ""
            if q in ("eval", "exec", "compile", "__import__"):
                q = "builtins." + q
            last = q.rsplit(".", 1)[-1]
            if last == "YAML" and ("ruamel" in q or "yaml" in q):
                typ = next((k.value for k in c.keywords if k.arg == "typ"), c.args[0] if c.args else None)
                val = "rt" if typ is None else const_value(ix, m, typ)
                r.ob(f"{f.qual}: YAML(typ={val})")
                if val == "unsafe" or isinstance(typ, (ast.List, ast.Tuple)) and any(isinstance(x, ast.Constant) and x.value == "unsafe" for x in typ.elts):
                    r.bad("unsafe-yaml", f.qual, loc(m, c), "documents are loaded with the unsafe YAML loader")
            if q in _HOST:
                r.ob(f"{f.qual}: {q}")
                if q == "importlib.import_module" and c.args and const_value(ix, m, c.args[0]) is not None:
                    continue
                r.bad("host-code", f.qual, loc(m, c), f"{q} can run text as host code")
    for n in ix.all_module_names():
        m = ix.module(n)
        for c in ast.walk(ast.Module(body=[s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])):
            if isinstance(c, ast.Call) and (resolve_call(ix, m, c) or "").rsplit(".", 1)[-1] == "YAML":
                val = next((const_value(ix, m, k.value) for k in c.keywords if k.arg == "typ"), "rt")
                r.ob(f"{n}: YAML(typ={val})")
                if val == "unsafe":
                    r.bad("unsafe-yaml", n, loc(m, c), "documents are loaded with the unsafe YAML loader")
    # a positive micro example, so that the matcher itself is known to work
    t = ast.parse("import os\ndef g(x):\n  eval(x)\n  os.system(x)").body[1]
    assert sum(isinstance(c, ast.Call) and dotted(c.func) in ("eval", "os.system") for c in own_nodes(t)) == 2
    return r


def _always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and _always_raises(s.body) and _always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and _always_raises(s.body):
            return True
        if isinstance(s, ast.Try) and (_always_raises(s.finalbody) or _always_raises(s.body) and all(_always_raises(h.body) for h in s.handlers)):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


_FAIL = {"subprocess.CalledProcessError", "subprocess.SubprocessError", "builtins.Exception", "builtins.BaseException", "builtins.OSError", "Exception", "BaseException", "OSError", "CalledProcessError", "SubprocessError"}


def rule_checked_processes(ctx):
    r = Res("the image pullers check the exit status of each command they run, and every handler around such a call raises again on all paths")
    ix = ctx.ix
    for m, f, c, q in process_calls(ix):
        if m.name != "cwl_utils.image_puller" or f is None:
            continue
        par = parents(f.node)
        r.ob(f"{f.qual}: {ast.unparse(c)[:70]}")
        if q in ("subprocess.run",):
            ck = next((k.value for k in c.keywords if k.arg == "check"), None)
            if not (isinstance(ck, ast.Constant) and ck.value is True) and not _status_used(f.node, c, par):
                r.bad("unchecked-process", f.qual, loc(m, c), f"{ast.unparse(c)[:80]} ignores a failing command")
        elif q in ("subprocess.call", "subprocess.Popen") and not _status_used(f.node, c, par):
            r.bad("unchecked-process", f.qual, loc(m, c), f"{ast.unparse(c)[:80]} ignores a failing command")
        for t, ch in enclosing(c, par, (ast.Try,)):
            if ch not in t.body:
                continue
            for h in t.handlers:
                r.ob()
                if not _always_raises(h.body):
                    r.bad("swallowed-failure", f.qual, loc(m, h), f"the handler for {ast.unparse(h.type) if h.type else 'any exception'} does not raise again on every path")
        for w, ch in enclosing(c, par, (ast.With,)):
            for i in w.items:
                if isinstance(i.context_expr, ast.Call) and (dotted(i.context_expr.func) or "").endswith("suppress"):
                    r.bad("swallowed-failure", f.qual, loc(m, w), f"failures are suppressed by {ast.unparse(i.context_expr)[:60]}")
    # handlers around the method that runs the command
    for m, f in package_functions(ix):
        if m.name not in ("cwl_utils.image_puller", "cwl_utils.docker_extract"):
            continue
        for t in own_nodes(f.node):
            if isinstance(t, ast.Try) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("_run_command_pull", "save_docker_image") for s in t.body for c in ast.walk(s)):
                for h in t.handlers:
                    r.ob()
                    if not _always_raises(h.body):
                        r.bad("swallowed-failure", f.qual, loc(m, h), "a failing pull is swallowed")
    return r


def _status_used(fn, c, par):
    """The process result is kept and its status (or check_returncode) looked at."""
    p = par.get(c)
    if isinstance(p, ast.Attribute) and p.attr in ("returncode", "check_returncode"):
        return True
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        nm = p.targets[0].id
        return any(isinstance(x, ast.Attribute) and x.attr in ("returncode", "check_returncode", "wait", "poll") and isinstance(x.value, ast.Name) and x.value.id == nm for x in own_nodes(fn)) \
            or any(isinstance(x, ast.Compare) and nm in names_in(x) for x in own_nodes(fn))
    return not isinstance(p, ast.Expr)


# --------------------------------------------------------------------------------------
# C16: the JavaScript gate
# --------------------------------------------------------------------------------------
def _gate_deps(fn, name):
    """Constants that every assignment of a true value to a variable depends on (data or control)."""
    par = parents(fn)
    out = []
    for s in own_nodes(fn):
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            v = s.value
        elif isinstance(s, (ast.AnnAssign, ast.NamedExpr)) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
            v = s.value
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            v = s.value
        else:
            continue
        if isinstance(v, ast.Constant) and not v.value:
            continue
        cs = {x.value for x in ast.walk(v) if isinstance(x, ast.Constant)} | {("name", x) for x in names_in(v)}
        for i, ch in enclosing(s, par, (ast.If, ast.match_case, ast.Match, ast.For)):
            t = i.test if isinstance(i, ast.If) else i.pattern if isinstance(i, ast.match_case) else i.subject if isinstance(i, ast.Match) else i.iter
            cs |= {x.value for x in ast.walk(t) if isinstance(x, ast.Constant)} | {("name", x) for x in names_in(t)}
        out.append((s, cs))
    return out


def rule_js_gate(ctx):
    r = Res("the engine's eval is reached only under the fullJS flag, and the flag is set only where a requirement of class InlineJavascriptRequirement was found")
    ix = ctx.ix
    m = ix.module("cwl_utils.expression")
    # which parameter of which function is the gate
    for f in ix.all_functions(m):
        try:
            res = E.Engine(ix, inline=lambda q: False).run(f)
        except Exception as e:  # noqa: BLE001
            r.extra.setdefault("not_judged", []).append(f"{f.qual}: {type(e).__name__}")
            continue
        for ev in res.of("call"):
            t = ev.term
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "eval" and "engine" in E.fmt(t[1][1]).lower():
                r.ob(f"{f.qual}: {E.fmt(t)[:60]} if {fmt_guards(ev.guards)[:80]}")
                if not any(pol and g in (("param", "fullJS"),) or pol and g[0] == "truthy" and g[1] == ("param", "fullJS") for g, pol in ev.guards) and "fullJS" in f.params():
                    r.bad("js-ungated", f.qual, ev.loc(), "the JavaScript engine evaluates an expression although inline JavaScript is not enabled", fmt_guards(ev.guards)[:200])
                elif "fullJS" not in f.params() and not _called_gated(ix, m, f):
                    r.bad("js-ungated", f.qual, ev.loc(), "the JavaScript engine evaluates an expression without regard to the fullJS flag")
    for f in ix.all_functions(m):
        for c in own_nodes(f.node):
            if not isinstance(c, ast.Call):
                continue
            k = next((k.value for k in c.keywords if k.arg == "fullJS"), None)
            if k is None:
                continue
            r.ob(f"{f.qual}: fullJS={ast.unparse(k)[:40]}")
            if "fullJS" in f.params() and names_in(k) == {"fullJS"}:
                continue
            if isinstance(k, ast.Constant):
                if k.value:
                    r.bad("js-always", f.qual, loc(m, c), "JavaScript is enabled unconditionally")
                continue
            if isinstance(k, ast.Name):
                for s, cs in _gate_deps(f.node, k.id):
                    r.ob()
                    if "InlineJavascriptRequirement" not in cs and not _mentions(ix, m, f, cs):
                        r.bad("js-flag", f.qual, loc(m, s), f"{k.id} is set without a test for InlineJavascriptRequirement")
    return r


def _mentions(ix, m, f, cs, depth=0):
    """One of the names is computed from a test for the requirement (locally or in a helper)."""
    todo, seen = [x[1] for x in cs if isinstance(x, tuple)], set()
    while todo:
        nm = todo.pop()
        if nm in seen:
            continue
        seen.add(nm)
        q = ix.resolve(m, nm)
        t = ix.lookup(q) if q else None
        if isinstance(t, Func) and any(isinstance(x, ast.Constant) and x.value == "InlineJavascriptRequirement" for x in ast.walk(t.node)):
            return True
        if nm in m.consts and any(isinstance(x, ast.Constant) and x.value == "InlineJavascriptRequirement" for x in ast.walk(m.consts[nm])):
            return True
        for s, c2 in _gate_deps(f.node, nm):
            if "InlineJavascriptRequirement" in c2:
                return True
            todo += [x[1] for x in c2 if isinstance(x, tuple)]
    return False


def _called_gated(ix, m, f):
    """Every call of a helper is made under the flag."""
    sites = 0
    for g in ix.all_functions(m):
        par = parents(g.node)
        for c in own_nodes(g.node):
            if isinstance(c, ast.Call) and dotted(c.func) and dotted(c.func).split(".")[-1] == f.name:
                sites += 1
                if not any("fullJS" in names_in(i.test) for i, _ in enclosing(c, par, (ast.If, ast.IfExp))) and not any(
                        isinstance(i, ast.If) and "fullJS" in names_in(i.test) and _leaves(i.body) for i in own_nodes(g.node)):
                    return False
    return sites > 0


def _leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


# --------------------------------------------------------------------------------------
# C16, C17: the JavaScript side
# --------------------------------------------------------------------------------------
TS = "/opt/veriftools/node/node_modules/typescript"


def rule_js_engine_files(ctx):
    r = Res("each node engine script evaluates in a new context without host objects, writes the JSON form of the value and then the end marker that sandboxjs.py waits for to both streams on every path, reports exceptions on stderr, and ends when its input ends")
    ix = ctx.ix
    root = ix.module("cwl_utils.sandboxjs").path.parent
    marker = _default_of(ix, "cwl_utils.sandboxjs.NodeJSEngine.__init__", "process_finished_str")
    node = shutil.which("node")
    if node is None or not Path(TS).is_dir():
        r.extra["not_judged"] = "node or the TypeScript parser is not available"
        return r
    used = {x.value for f in ix.all_functions(ix.module("cwl_utils.sandboxjs")) for x in own_nodes(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and re.fullmatch(r"cwlNodeEngine\w*\.js", x.value)}
    files = sorted(used) or sorted(p.name for p in root.glob("cwlNodeEngine*.js"))
    for name in files:
        p = root / name
        if not p.is_file():
            r.bad("js-file-missing", name, f"{name}:1", "the engine script named in sandboxjs.py does not exist")
            continue
        out = subprocess.run([node, str(Path(__file__).resolve().parent / "js_rules.js"), TS, str(p), (marker or "").rstrip("\n")], capture_output=True, text=True, timeout=120)
        if out.returncode != 0:
            r.extra.setdefault("not_judged", []).append(f"{name}: {out.stderr[-200:]}")
            continue
        d = json.loads(out.stdout)
        for o in d["obligations"]:
            r.ob(f"{name}: {o}")
        for b in d["findings"]:
            r.bad(b["rule"], "cwl_utils/" + name, f"{name}:{b['line']}", b["what"])
    return r


def _default_of(ix, q, param):
    f = ix.lookup(q)
    if f is None:
        return None
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == param and d is not None:
            return const_value(ix, f.module, d)
    return None


def rule_js_processes(ctx):
    r = Res("every JavaScript engine process that is started and kept is put on the list that is cleaned up at exit, and each timer that is started is cancelled on the way out")
    ix = ctx.ix
    m = ix.module("cwl_utils.sandboxjs")
    for f in ix.all_functions(m):
        fn, par = f.node, parents(f.node)
        for s in own_nodes(fn, nested=False):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.targets[0], ast.Name):
                q = resolve_call(ix, m, s.value, fn)
                nm = s.targets[0].id
                if q == "subprocess.Popen":
                    kept = [x for x in own_nodes(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "appendleft", "add", "extend") and "kill" in ast.unparse(x.func.value)
                            and any(nm in names_in(a) for a in x.args)]
                    waited = [x for x in own_nodes(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("wait", "communicate", "kill") and names_in(x.func.value) == {nm}]
                    r.ob(f"{f.qual}: {nm} = Popen(...): {'recorded' if kept else 'waited for' if waited else '?'}")
                    ok = bool(waited)
                    for k in kept:
                        # not behind a condition that does not also hold the start, and after it
                        st = k
                        ks = [i for i, ch in enclosing(k, par, (ast.If, ast.For, ast.While, ast.ExceptHandler))]
                        ps = [i for i, ch in enclosing(s, par, (ast.If, ast.For, ast.While, ast.ExceptHandler))]
                        extra = [i for i in ks if i not in ps]
                        if k.lineno > s.lineno and not [i for i in extra if not (isinstance(i, ast.If) and names_in(i.test) == {nm})]:
                            ok = True
                    if not ok and not _helper_gets(ix, m, f, nm):
                        r.bad("process-not-recorded", f.qual, loc(m, s), f"the process {nm} is started but not recorded for termination on every path")
                if q == "threading.Timer":
                    started = [x for x in own_nodes(fn, nested=False) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "start" and names_in(x.func.value) == {nm}]
                    cancelled = [x for x in own_nodes(fn, nested=False) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "cancel" and names_in(x.func.value) == {nm}]
                    r.ob(f"{f.qual}: timer {nm}")
                    if not started and not _helper_gets(ix, m, f, nm):
                        r.bad("timer-not-started", f.qual, loc(m, s), f"the timer {nm} is never started")
                    if started and not cancelled and not _helper_gets(ix, m, f, nm):
                        r.bad("timer-not-cancelled", f.qual, loc(m, s), f"the timer {nm} is never cancelled")
                    elif cancelled and all(any(i for i, _ in enclosing(k, par, (ast.If, ast.For, ast.While)) if i not in [j for j, _ in enclosing(s, par, (ast.If, ast.For, ast.While))]) for k in cancelled):
                        r.bad("timer-not-cancelled", f.qual, loc(m, cancelled[0]), f"the timer {nm} is cancelled only conditionally")
    return r


def _helper_gets(ix, m, f, nm):
    """The variable is handed to a helper of the same module (which then is responsible)."""
    for c in own_nodes(f.node):
        if isinstance(c, ast.Call) and any(isinstance(a, ast.Name) and a.id == nm for a in list(c.args) + [k.value for k in c.keywords]):
            d = dotted(c.func) or ""
            last = d.split(".")[-1]
            if last in m.funcs or any(last in k.methods for k in m.classes.values()):
                return True
    return False


# --------------------------------------------------------------------------------------
# C19: the scanner advances
# --------------------------------------------------------------------------------------
def _paths(body, idx, stk):
    """(change of the index or None, pushes, pops, how it ends) for each path through a block."""
    outs = [(0, 0, 0, None)]
    for s in body:
        nxt = []
        for d, pu, po, end in outs:
            if end is not None:
                nxt.append((d, pu, po, end))
                continue
            for d2, pu2, po2, e2 in _paths1(s, idx, stk):
                nxt.append((None if d is None or d2 is None else d + d2, pu + pu2, po + po2, e2))
        outs = list(dict.fromkeys(nxt))
        if len(outs) > 4000:
            raise E.Budget("paths")
    return outs


def _paths1(s, idx, stk):
    if isinstance(s, (ast.Return, ast.Raise)):
        return [(0, 0, 0, "exit")]
    if isinstance(s, ast.Break):
        return [(0, 0, 0, "exit")]
    if isinstance(s, ast.Continue):
        return [(0, 0, 0, "next")]
    if isinstance(s, ast.If):
        return _paths(s.body, idx, stk) + _paths(s.orelse, idx, stk)
    if isinstance(s, ast.Match):
        out = []
        total = False
        for c in s.cases:
            out += _paths(c.body, idx, stk)
            total |= isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None
        return out + ([] if total else [(0, 0, 0, None)])
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == idx:
        if isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and isinstance(s.op, (ast.Add, ast.Sub)):
            return [(s.value.value if isinstance(s.op, ast.Add) else -s.value.value, 0, 0, None)]
        return [(None, 0, 0, None)]
    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == idx for t in s.targets):
        v = s.value
        if isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == idx and isinstance(v.right, ast.Constant) and isinstance(v.op, (ast.Add, ast.Sub)):
            return [(v.right.value if isinstance(v.op, ast.Add) else -v.right.value, 0, 0, None)]
        return [(None, 0, 0, None)]
    if isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
        if any(isinstance(x, ast.Name) and x.id == idx and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
            raise E.Budget("nested")
        return [(0, 0, 0, None)]
    pu = sum(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name) and x.func.value.id in stk for x in ast.walk(s))
    po = sum(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and isinstance(x.func.value, ast.Name) and x.func.value.id in stk for x in ast.walk(s))
    return [(0, pu, po, None)]


def rule_scanner_progress(ctx):
    r = Res("every path through the scanner's loop advances the index, or leaves it and shortens the stack without pushing (so that (remaining text, stack) decreases and the scan ends)")
    ix = ctx.ix
    f = ix.lookup("cwl_utils.expression.scanner")
    if f is None:
        return r
    m = f.module
    for lp in own_nodes(f.node):
        if not isinstance(lp, ast.While):
            continue
        stored = {x.id for x in ast.walk(lp) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        idx = [n for n in names_in(lp.test) if n in stored]
        stk = {x.func.value.id for x in ast.walk(lp) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and isinstance(x.func.value, ast.Name)}
        if len(idx) != 1:
            r.extra.setdefault("not_judged", []).append(f"{loc(m, lp)}: no single loop index")
            if not idx and not any(isinstance(x, (ast.Return, ast.Break, ast.Raise)) for x in ast.walk(lp)):
                r.bad("no-progress", f.qual, loc(m, lp), "nothing that the loop condition tests changes in the loop")
            continue
        try:
            ps = _paths(lp.body, idx[0], stk)
        except E.Budget as e:
            r.extra.setdefault("not_judged", []).append(f"{loc(m, lp)}: {e}")
            continue
        for d, pu, po, end in ps:
            if end == "exit":
                continue
            r.ob(f"path with index change {d}, {pu} pushes, {po} pops")
            if d is None:
                r.extra.setdefault("not_judged", []).append("a path changes the index by an unknown amount")
            elif d < 0 or d == 0 and not (po > 0 and pu == 0):
                r.bad("no-progress", f.qual, loc(m, lp), f"a path through the loop changes the index by {d} with {pu} pushes and {po} pops, so the scan may not end")
    return r


# --------------------------------------------------------------------------------------
# C23: options are read
# --------------------------------------------------------------------------------------
def rule_options_read(ctx):
    r = Res("every option that a command line parser defines is read by the program")
    ix = ctx.ix
    for n in ix.all_module_names():
        m = ix.module(n)
        if ".tests" in n or "add_argument" not in m.source:
            continue
        reads = {x.attr for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)}
        strs = {x.args[1].value for x in ast.walk(m.tree) if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "getattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
        subs = {x.slice.value for x in ast.walk(m.tree) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant)}
        whole = any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "vars" for x in ast.walk(m.tree)) or any(
            isinstance(x, ast.keyword) and x.arg is None for x in ast.walk(m.tree))
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "add_argument":
                kw = {k.arg: k.value for k in c.keywords}
                if isinstance(kw.get("action"), ast.Constant) and kw["action"].value in ("version", "help"):
                    continue
                names = [a.value for a in c.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                if not names:
                    continue
                if "dest" in kw and isinstance(kw["dest"], ast.Constant):
                    dest = kw["dest"].value
                else:
                    longs = [x for x in names if x.startswith("--")]
                    dest = (longs[0] if longs else names[0]).lstrip("-").replace("-", "_")
                r.ob(f"{n}: {dest}")
                if dest not in reads | strs | subs and not whole:
                    r.bad("option-unread", n + "." + dest, loc(m, c), f"option {names[0]} is accepted but never read")
    return r


# --------------------------------------------------------------------------------------
# C24: generated objects
# --------------------------------------------------------------------------------------
def rule_constructor_fields(ctx):
    r = Res("every model object that a refactorer builds gets only fields its class has, each at most once, and all fields the class requires")
    ix = ctx.ix
    for v in VERSIONS:
        m = ix.module(f"cwl_utils.cwl_{v}_expression_refactor")
        if m is None:
            continue
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            q = ix.resolve(m, dotted(c.func) or "") if dotted(c.func) else None
            k = ix.lookup(q) if q else None
            if not isinstance(k, Class) or not re.search(r"parser\.cwl_v1_\d\.", q):
                continue
            init = ix.find_method(k, "__init__")
            if init is None:
                continue
            a = init.node.args
            ps = [x.arg for x in a.posonlyargs + a.args][1:]
            req = set(ps[: len(ps) - len(a.defaults)]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
            allp = ps + [x.arg for x in a.kwonlyargs]
            r.ob(f"{m.name.split('.')[-1]}:{c.lineno} {k.qual.rsplit('.', 1)[-1]}({', '.join(x.arg or '**' for x in c.keywords)})")
            if any(isinstance(x, ast.Starred) for x in c.args) or any(x.arg is None for x in c.keywords):
                continue
            fn = _func_at(ix, m, c)
            kws = [x.arg for x in c.keywords]
            if len(c.args) > len(ps):
                r.bad("constructor-args", fn, loc(m, c), f"{k.qual.rsplit('.', 1)[-1]} gets {len(c.args)} positional values for {len(ps)} fields")
            given = set(ps[: len(c.args)]) | set(kws)
            for x in kws:
                if x not in allp and a.kwarg is None:
                    r.bad("constructor-field", fn, loc(m, c), f"{k.qual.rsplit('.', 1)[-1]} has no field {x}")
            for x in sorted(req - given):
                r.bad("constructor-missing", fn, loc(m, c), f"{k.qual.rsplit('.', 1)[-1]} is built without its required field {x}")
            for i, x in enumerate(c.args):
                if isinstance(x, ast.Name) and i < len(ps) and x.id in allp and x.id != ps[i]:
                    r.bad("constructor-swapped", fn, loc(m, c), f"{x.id} is passed to {k.qual.rsplit('.', 1)[-1]} as field {ps[i]}")
    return r


def _func_at(ix, m, node):
    best = None
    for f in ix.all_functions(m):
        if f.node.lineno <= node.lineno <= (f.node.end_lineno or 0) and (best is None or f.node.lineno >= best.node.lineno):
            best = f
    return best.qual if best else m.name


# --------------------------------------------------------------------------------------
# C26: siblings
# --------------------------------------------------------------------------------------
_V = re.compile(r"v1_[012]|v1\.[012]")


def rule_siblings(ctx):
    r = Res("of the copies of a helper for v1.0, v1.1 and v1.2, no copy departs from its reviewed behaviour without the others departing alike")
    import fnmatch

    from .props import PROPS
    conf = ctx.conf
    pats = PROPS["C26"]["family"]
    fam: dict = {}
    for q in set(conf.rf) & set(conf.nf):
        if any(fnmatch.fnmatchcase(q, p) for p in pats):
            fam.setdefault(_V.sub("v1_?", q), []).append(q)
    groups = 0
    for key, qs in sorted(fam.items()):
        if len(qs) < 2:
            continue
        groups += 1
        r.ob(f"{key}: {len(qs)} copies")
        ds = {}
        for q in qs:
            try:
                ds[q] = [] if conf.same_text(q) and not conf.extra_names(q) else list(conf.function(q))
            except (RecursionError, Exception) as e:  # noqa: BLE001
                r.extra.setdefault("not_judged", []).append(f"{q}: {type(e).__name__}")
                ds = {}
                break
        if not any(ds.values()):
            continue
        changed = {q: sorted({_V.sub("v1_?", d.kind + " " + d.text + " " + str(d.detail)) for d in v}) for q, v in ds.items() if v}
        same = {q for q, v in ds.items() if not v}
        if same or len({tuple(x) for x in changed.values()}) > 1:
            for q, v in ds.items():
                for d in v:
                    r.bad("sibling-" + d.kind, q, list(d.where)[:3], f"{'only ' if same else ''}this copy of {key.rsplit('.', 1)[-1]} changed: {d.text}", d.detail)
    r.extra["families"] = groups
    return r


# --------------------------------------------------------------------------------------
# C31: state that outlives a call
# --------------------------------------------------------------------------------------
_MUT = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "clear", "remove", "discard", "appendleft", "extendleft", "sort", "reverse", "__setitem__"}
# state that is allowed to persist, with the reason; anything else is reported
ALLOWED_STATE = {
    "cwl_utils.sandboxjs.__js_engine": "the configured engine, set by an explicit setter or the default on first use",
    "cwl_utils.sandboxjs.default_js_engine": "the default engine, created once",
    "cwl_utils.utils._USERNS": "a property of the machine, probed once",
    "cwl_utils.singularity._SINGULARITY_VERSION": "the installed version, probed once",
    "cwl_utils.singularity._SINGULARITY_FLAVOR": "the installed flavour, probed once",
    "cwl_utils.sandboxjs.NodeJSEngine.localdata": "the engine processes of a thread; each evaluation gets a fresh context",
}


def _mutable(node):
    if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(node, ast.Call) and (dotted(node.func) or "").split(".")[-1] in ("list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "CommentedMap", "CommentedSeq", "count", "local")


def _root_name(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def _writes(fn):
    """(root expression, node) of every in-place change or store through a name."""
    for x in own_nodes(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in _MUT:
            yield x.func.value, x
        elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
            for t in ts:
                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(y, ast.Subscript):
                        yield y.value, x
                    elif isinstance(y, ast.Attribute):
                        yield y.value, x
                    elif isinstance(x, ast.AugAssign) and isinstance(y, ast.Name):
                        yield y, x
        elif isinstance(x, ast.Call) and getattr(x.func, "id", "") == "next" and x.args:
            yield x.args[0], x


def _locals(fn):
    out = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        out.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    gl = set()
    for x in own_nodes(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.Global):
            gl.update(x.names)
        elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
            out |= {a.arg for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out - gl, gl


def rule_global_state(ctx):
    r = Res("no function changes module-level or class-level state, a mutable parameter default, or keeps results in a cache, except for listed caches of machine properties; the type names given while packing are reset at the start of every pack")
    ix = ctx.ix
    per: dict = {}
    for m, f in package_functions(ix):
        fn = f.node
        loc_names, gl = _locals(fn)
        r.n += 1
        for d in f.decorators:
            if re.search(r"\b(lru_cache|cache|cached_property|memoize|singledispatch)\b", d):
                if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.List, ast.Dict)) for x in own_nodes(fn)) and "cached_property" not in d:
                    r.bad("result-cache", f.qual, loc(m, fn), f"results are kept across calls by @{d}")
        for g in sorted(gl):
            if any(isinstance(x, ast.Name) and x.id == g and isinstance(x.ctx, ast.Store) for x in own_nodes(fn)):
                per.setdefault(f"{m.name}.{g}", []).append((m, f, fn))
        for base, x in _writes(fn):
            root = _root_name(base)
            if root is None or root in ("self", "cls") and f.cls is not None:
                if root is not None and isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name):
                    k = f.cls
                    if base.attr in k.attrs and _mutable(k.attrs[base.attr]) and not _set_on_self(k, base.attr):
                        per.setdefault(f"{k.qual}.{base.attr}", []).append((m, f, x))
                continue
            if root in loc_names:
                continue
            q = ix.resolve(m, root)
            if root in m.consts:
                per.setdefault(f"{m.name}.{root}", []).append((m, f, x))
            elif root in m.classes and isinstance(base, ast.Name):
                per.setdefault(f"{m.name}.{root}.{ast.unparse(x)[:30]}", []).append((m, f, x))
            elif q and q.startswith("cwl_utils.") and ix.module_of(q) is not None and not isinstance(ix.lookup(q), Func):
                mm = ix.module_of(q)
                tail = q[len(mm.name) + 1:]
                if tail in mm.consts or ix.module(q) is not None:
                    per.setdefault(q, []).append((m, f, x))
        a = fn.args
        ps = a.posonlyargs + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if not _mutable(d):
                continue
            r.n += 1
            rebound = any(isinstance(x, ast.Name) and x.id == p.arg and isinstance(x.ctx, ast.Store) for x in own_nodes(fn))
            if rebound:
                continue
            for base, x in _writes(fn):
                if _root_name(base) == p.arg and isinstance(base, ast.Name):
                    r.bad("mutable-default", f.qual, loc(m, x), f"the default value of {p.arg} is changed in place and kept for the next call")
                    break
            else:
                if any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == p.arg for x in own_nodes(fn)) or any(
                        isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p.arg and isinstance(x.targets[0], ast.Attribute) for x in own_nodes(fn)):
                    r.bad("mutable-default", f.qual, loc(m, fn), f"the default value of {p.arg} is shared between calls")
    for st, sites in sorted(per.items()):
        r.ob(f"{st}: changed by {sorted({s[1].qual.rsplit('.', 1)[-1] for s in sites})}")
        if st in ALLOWED_STATE:
            continue
        if _reset_at_entry(ix, st, sites):
            continue
        m, f, x = sites[0]
        r.bad("module-state", st, [loc(s[0], s[2]) for s in sites[:4]], f"module-level state is changed by {', '.join(sorted({s[1].qual for s in sites})[:4])} and kept for later calls")
    r.extra["state"] = sorted(per)
    return r


def _set_on_self(k, attr):
    init = k.methods.get("__init__")
    return init is not None and any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in own_nodes(init.node))


# operations whose state may live in a module if it is reset before each of them
ENTRIES = {"cwl_utils.schemadef": ("cwl_utils.pack.pack", "cwl_utils.pack.pack_process")}


def _reset_at_entry(ix, st, sites):
    """A function that only sets the state to a constant is called by the entry point before the work starts."""
    mod = st.rsplit(".", 1)[0]
    if mod not in ENTRIES:
        return False
    entry, work = ENTRIES[mod]
    e = ix.lookup(entry)
    if e is None:
        return False
    resets = set()
    name = st.rsplit(".", 1)[1]
    for m, f, x in sites:
        if isinstance(x, ast.FunctionDef) or True:
            # unconditional statements of the function that clear or constantly set the state
            for s in f.node.body:
                c = s.value if isinstance(s, ast.Expr) else None
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and (isinstance(s.value, ast.Constant) or _mutable(s.value) and not names_in(s.value) - {"set", "list", "dict"}):
                    resets.add(f.qual)
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "clear" and isinstance(c.func.value, ast.Name) and c.func.value.id == name:
                    resets.add(f.qual)
    seen = {"work": False, "late": False}
    rets: list = [[]]

    def calls(m, node, before, depth):
        for c in ast.walk(node):
            if isinstance(c, ast.Call):
                q = resolve_call(ix, m, c)
                if q in resets:
                    before = True
                elif q == work:
                    seen["work"] = True
                    seen["late"] |= not before
                elif depth < 3 and isinstance(ix.lookup(q or ""), Func) and q != entry:
                    h = ix.lookup(q)
                    if h.module.name == e.module.name:
                        rets.append([])
                        out = block(h.module, h.node.body, before, depth + 1)
                        before = all(rets.pop() + ([] if out is None else [out]))
        return before

    def block(m, stmts, before, depth):
        """State after the statements: True/False, or None when they never fall through."""
        for s in stmts:
            if isinstance(s, ast.If):
                before = calls(m, s.test, before, depth)
                outs = [block(m, s.body, before, depth), block(m, s.orelse, before, depth)]
                outs = [o for o in outs if o is not None]
                if not outs:
                    return None
                before = all(outs)
            elif isinstance(s, (ast.For, ast.While)):
                before = calls(m, s.iter if isinstance(s, ast.For) else s.test, before, depth)
                block(m, s.body, before, depth)
                block(m, s.orelse, before, depth)
            elif isinstance(s, ast.With):
                for i in s.items:
                    before = calls(m, i.context_expr, before, depth)
                before = block(m, s.body, before, depth)
                if before is None:
                    return None
            elif isinstance(s, ast.Try):
                r = block(m, s.body, before, depth)
                for h in s.handlers:
                    block(m, h.body, before, depth)
                block(m, s.orelse, bool(r), depth)
                block(m, s.finalbody, before, depth)
                before = bool(r) and not s.handlers
            elif isinstance(s, ast.Match):
                before = calls(m, s.subject, before, depth)
                for k in s.cases:
                    block(m, k.body, before, depth)
            elif isinstance(s, (ast.Return, ast.Raise)):
                x = calls(m, s, before, depth)
                if isinstance(s, ast.Return):
                    rets[-1].append(x)
                return None
            elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                before = calls(m, s, before, depth)
        return before

    end = block(e.module, e.node.body, False, 0)
    return not seen["late"] and (seen["work"] or end is True)


# --------------------------------------------------------------------------------------
# C25: the positions in which the grammar of a version permits an expression
# --------------------------------------------------------------------------------------
def _takes_expression(t):
    if not isinstance(t, (tuple, list)) or not t or t[0] == "record":
        return False
    return t[0] in ("expr", "expression") or any(_takes_expression(x) for x in t)


def _examines(ix, m):
    """The functions of ``m`` that call get_expression, directly or through others."""
    fns = list(ix.all_functions(m))
    calls = {f.qual: {getattr(c.func, "id", getattr(c.func, "attr", "")) for c in own_nodes(f.node) if isinstance(c, ast.Call)} for f in fns}
    last = {f.qual.rsplit(".", 1)[-1]: f.qual for f in fns}
    good = {q for q, c in calls.items() if "get_expression" in c}
    while True:
        more = {q for q, c in calls.items() if q not in good and any(last.get(x) in good for x in c)}
        if not more:
            return [f for f in fns if f.qual in good]
        good |= more


def rule_expression_positions(ctx):
    r = Res("every field that the grammar of a version lets hold an expression is read by that version's refactorer where it looks for expressions")
    ix = ctx.ix
    for v in VERSIONS:
        m = ix.module(f"cwl_utils.cwl_{v}_expression_refactor")
        if m is None:
            continue
        p = ctx.parser(v)
        read = set()
        for f in _examines(ix, m):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    if n.attr == "attrs":
                        k = ix.lookup(ix.resolve(m, dotted(n.value) or "") or "")
                        k = k.qual.rsplit(".", 1)[-1] if isinstance(k, Class) else None
                        if k in p.classes:
                            read |= {x.attr for x in p.classes[k].fields.values()}
                    read.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    read.add(n.value)
                elif isinstance(n, ast.MatchClass):
                    read |= set(n.kwd_attrs)
        names: dict = {}
        for name, c in p.classes.items():
            for fl in c.fields.values():
                if _takes_expression(fl.loaders):
                    names.setdefault(fl.attr, []).append(name)
        for a, cs in sorted(names.items()):
            for c in cs:
                r.ob(f"{v} {c}.{a}")
            if a not in read:
                r.bad("expression-unvisited", f"{m.name}.{a}", f"{m.rel()}:1", f"an expression in {', '.join(c + '.' + a for c in cs)} is never looked at")
    return r


# --------------------------------------------------------------------------------------
# C24: changes made to a copy that nobody keeps
# --------------------------------------------------------------------------------------
def _aliases(fn, p):
    """Names bound, in ``fn``, to ``p`` or to something inside it without a copy."""
    al = {p}
    while True:
        new = set()
        for n in own_nodes(fn):
            if isinstance(n, (ast.For, ast.comprehension)):
                src, tgt = n.iter, n.target
                if isinstance(src, ast.Call) and getattr(src.func, "id", "") in ("enumerate", "list", "iter", "reversed", "zip") and src.args:
                    src = src.args[0]
            elif isinstance(n, ast.Assign):
                src, tgt = n.value, n.targets[0]
            elif isinstance(n, ast.NamedExpr):
                src, tgt = n.value, n.target
            else:
                continue
            if isinstance(src, (ast.Attribute, ast.Subscript, ast.Name)) and _root_name(src) in al:
                new |= {x.id for x in ast.walk(tgt) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if new <= al:
            return al
        al |= new


def _escapes(fn, names):
    """Does ``fn`` return one of ``names`` or put it anywhere that lasts?"""
    par = parents(fn)
    for n in own_nodes(fn):
        if not (isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)):
            continue
        up = par.get(n)
        if isinstance(up, ast.Attribute):  # only a part of it is used
            continue
        if isinstance(up, (ast.List, ast.Tuple)) and isinstance(par.get(up), ast.Call):
            continue
        if isinstance(up, ast.Call) and n in up.args or isinstance(up, (ast.Compare, ast.BoolOp, ast.If, ast.UnaryOp, ast.Match, ast.For, ast.comprehension, ast.FormattedValue, ast.While, ast.IfExp)):
            continue
        if isinstance(up, ast.keyword) and isinstance(par.get(up), ast.Call):
            continue
        return True
    return False


def rule_lost_changes(ctx):
    r = Res("no function changes an argument of which every caller passes a deep copy that it then drops")
    ix = ctx.ix
    for v in VERSIONS:
        m = ix.module(f"cwl_utils.cwl_{v}_expression_refactor")
        if m is None:
            continue
        fns = {f.qual.rsplit(".", 1)[-1]: f for f in ix.all_functions(m)}
        er = ix.module("cwl_utils.expression_refactor")
        known = set(fns) | {f.qual.rsplit(".", 1)[-1] for f in (ix.all_functions(er) if er else ())} | {"isinstance"}
        sites: dict = {}
        for f in fns.values():
            for c in own_nodes(f.node):
                if isinstance(c, ast.Call):
                    g = fns.get(getattr(c.func, "id", getattr(c.func, "attr", "")))
                    if g is not None:
                        sites.setdefault(g.qual, []).append((f, c))
        for g in fns.values():
            ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
            for i, p in enumerate(ps):
                dropped = []
                for f, c in sites.get(g.qual, ()):
                    a = c.args[i] if i < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args) else next((k.value for k in c.keywords if k.arg == p), None)
                    dropped.append(_dropped_copy(known, f.node, a))
                if not dropped or not all(dropped):
                    continue
                al = _aliases(g.node, p)
                r.ob(f"{g.qual}({p}) gets a copy that its callers drop")
                if _escapes(g.node, {p}):
                    continue
                for n in own_nodes(g.node):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []:
                        if isinstance(t, (ast.Attribute, ast.Subscript)) and _root_name(t) in al and _part_of(g.node, t, al):
                            r.bad("lost-change", g.qual, loc(m, n), f"{ast.unparse(t)} is changed in a copy that no caller keeps")
        r.ob()
    return r


def _source(n):
    src = n.iter
    if isinstance(src, ast.Call) and getattr(src.func, "id", "") in ("enumerate", "list", "iter", "reversed", "zip") and src.args:
        src = src.args[0]
    return src


def _part_of(fn, t, al):
    """Does the root of the target name a part of the copy at this place?"""
    name, par = _root_name(t), parents(fn)
    n = t
    while n in par:
        n = par[n]
        if isinstance(n, ast.For) and name in {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}:
            s = _source(n)
            plain = isinstance(s, (ast.Attribute, ast.Subscript, ast.Name)) and _root_name(s) in al and not _rebound(fn, _root_name(s), al)
            return plain and not any(isinstance(x, (ast.Assign, ast.For)) and x is not n and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for z in (x.targets if isinstance(x, ast.Assign) else [x.target]) for y in ast.walk(z)) for x in ast.walk(n))
    return not _rebound(fn, name, al)


def _rebound(fn, name, al):
    """Is the name also bound to something that is not part of the copy?"""
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for t in n.targets for x in ast.walk(t) if isinstance(getattr(x, "ctx", None), ast.Store)):
            if not (isinstance(n.value, (ast.Attribute, ast.Subscript, ast.Name)) and _root_name(n.value) in al):
                return True
        elif isinstance(n, (ast.For, ast.comprehension)) and name in {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}:
            src = n.iter
            if isinstance(src, ast.Call) and getattr(src.func, "id", "") in ("enumerate", "list", "iter", "reversed", "zip") and src.args:
                src = src.args[0]
            if not (isinstance(src, (ast.Attribute, ast.Subscript, ast.Name)) and _root_name(src) in al):
                return True
    return False


def _dropped_copy(known, fn, a):
    """Is the argument a deep copy that ``fn`` neither keeps nor reads again?"""
    def deep(x):
        return isinstance(x, ast.Call) and (dotted(x.func) or "").rsplit(".", 1)[-1] == "deepcopy"
    if a is None:
        return False
    if deep(a):
        return True
    if not isinstance(a, ast.Name):
        return False
    binds = [n for n in own_nodes(fn) if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == a.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t))]
    if not binds or not all(deep(n.value) for n in binds) or a.id in {x.arg for x in fn.args.args}:
        return False
    par = parents(fn)
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and n.id == a.id and isinstance(n.ctx, ast.Load):
            up = par.get(n)
            call = par.get(up) if isinstance(up, ast.keyword) else up
            if isinstance(call, ast.Call) and getattr(call.func, "id", getattr(call.func, "attr", "")) in known:
                continue
            if isinstance(up, ast.Attribute) and not isinstance(up.ctx, ast.Store):
                continue
            return False
    return True


def rule_idle_loops(ctx):
    """A loop whose every path is ``continue`` filters nothing: the enclosing loop goes on."""
    r = Res("no loop consists of a condition on its elements that only continues: what it was to skip is not skipped")
    for name in [f"cwl_utils.cwl_{v}_expression_refactor" for v in VERSIONS] + ["cwl_utils.expression_refactor"]:
        m = ctx.ix.module(name)
        for f in ctx.ix.all_functions(m) if m else ():
            for n in own_nodes(f.node):
                if not isinstance(n, ast.For) or n.orelse:
                    continue
                r.ob()
                its = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                said = [s for s in n.body if isinstance(s, ast.If) and not s.orelse and any(isinstance(x, ast.Continue) for x in s.body)]
                if not said:
                    continue
                idle = all(
                    isinstance(s, ast.Pass)
                    or isinstance(s, ast.If)
                    and all(isinstance(x, (ast.Continue, ast.Pass)) for x in s.body + s.orelse)
                    and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(s.test))
                    and its & {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
                    for s in n.body
                )
                if idle:
                    r.bad("idle-loop", f.qual, loc(m, n), f"'if {ast.unparse(said[0].test)}: continue' ends only the round of a loop that does nothing else: nothing is skipped")
    return r
