"""Module index: parses the repository's sources and resolves names to definitions.

Nothing of the analysed program is imported or executed; everything is read from
the syntax trees of /repo's working tree.
"""
from __future__ import annotations

import ast
import builtins
import os
from pathlib import Path
from typing import Iterator, Optional

from .rewrite import normalise

BUILTINS = set(dir(builtins))


class Func:
    """A function or method definition."""

    __slots__ = ("qual", "module", "node", "cls", "is_gen", "decorators", "outer")

    def __init__(self, qual, module, node, cls=None):
        self.qual = qual
        self.module = module
        self.node = node
        self.cls = cls
        self.is_gen = _is_generator(node)
        self.outer = None
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def name(self):
        return self.node.name

    @property
    def static(self):
        return "staticmethod" in self.decorators

    @property
    def clsmethod(self):
        return "classmethod" in self.decorators

    def params(self) -> list[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<Func {self.qual}>"


def _is_generator(node) -> bool:
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class:
    __slots__ = ("qual", "module", "node", "methods", "attrs", "bases")

    def __init__(self, qual, module, node):
        self.qual = qual
        self.module = module
        self.node = node
        self.methods: dict[str, Func] = {}
        self.attrs: dict[str, ast.expr] = {}
        self.bases = node.bases
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                if any(ast.unparse(d).split(".")[-1] == "overload" for d in st.decorator_list):
                    continue
                self.methods[st.name] = Func(f"{qual}.{st.name}", module, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name: str, path: Path, index: "Index"):
        self.name = name
        self.path = path
        self.index = index
        self.source = path.read_text(encoding="utf-8")
        self.tree = normalise(ast.parse(self.source, filename=str(path)))
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self.consts: dict[str, ast.expr] = {}
        self.imports: dict[str, str] = {}
        self.type_aliases: dict[str, ast.expr] = {}
        self.multi: dict[str, int] = {}
        self._scan(self.tree.body)
        for n in self.consts:
            if n in self.imports or n in self.funcs or n in self.classes:
                self.multi[n] = self.multi.get(n, 1) + 1

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(ast.unparse(d).split(".")[-1] == "overload" for d in st.decorator_list):
                    continue
                self.funcs[st.name] = Func(f"{self.name}.{st.name}", self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(f"{self.name}.{st.name}", self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    is_pkg = self.path.name == "__init__.py"
                    drop = st.level - (1 if is_pkg else 0)
                    parts = parts[: len(parts) - drop] if drop else parts
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
                        self.multi[t.id] = self.multi.get(t.id, 0) + 1
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.consts[st.target.id] = st.value
                    self.multi[st.target.id] = self.multi.get(st.target.id, 0) + 1
            elif isinstance(st, ast.If):
                self._scan(st.orelse)
                self._scan(st.body)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.body)
            elif type(st).__name__ == "TypeAlias":
                self.consts[st.name.id] = st.value

    def rel(self) -> str:
        try:
            return str(self.path.relative_to(self.index.root))
        except ValueError:
            return str(self.path)

    def __repr__(self):
        return f"<Module {self.name}>"


class Index:
    """All modules of the package under /repo/src (or of a given directory)."""

    def __init__(self, root: Optional[str] = None, src: str = "src", package: str = "cwl_utils"):
        self.root = Path(root or os.environ.get("SA_REPO", "/repo")).resolve()
        self.src = self.root / src
        self.package = package
        self._cache: dict[str, Optional[Module]] = {}

    def path_of(self, name: str) -> Optional[Path]:
        p = self.src.joinpath(*name.split("."))
        if (p / "__init__.py").is_file():
            return p / "__init__.py"
        if p.with_suffix(".py").is_file():
            return p.with_suffix(".py")
        return None

    def module(self, name: str) -> Optional[Module]:
        if name not in self._cache:
            p = self.path_of(name) if name.split(".")[0] == self.package else None
            self._cache[name] = Module(name, p, self) if p else None
        return self._cache[name]

    def all_module_names(self, tests: bool = False) -> list[str]:
        base = self.src / self.package
        out = []
        for p in sorted(base.rglob("*.py")):
            rel = p.relative_to(self.src).with_suffix("")
            parts = list(rel.parts)
            if not tests and ("tests" in parts or "testdata" in parts):
                continue
            if parts[-1] == "__init__":
                parts.pop()
            out.append(".".join(parts))
        return out

    # -- resolution ---------------------------------------------------------
    def canonical(self, qual: str, _depth: int = 0) -> str:
        """Follow re-exports so that one definition has one name."""
        if _depth > 12:
            return qual
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if not rest:
                return qual
            head, tail = rest[0], rest[1:]
            if head in m.funcs or head in m.classes:
                return qual
            if head in m.consts:
                # plain alias "A = B"
                v = m.consts[head]
                if isinstance(v, (ast.Name, ast.Attribute)) and m.multi.get(head, 1) == 1:
                    d = dotted(v)
                    if d and d.split(".")[0] != head:
                        r = self.resolve(m, d)
                        if r and r != qual:
                            return self.canonical(".".join([r] + tail), _depth + 1)
                return qual
            if head in m.imports:
                return self.canonical(".".join([m.imports[head]] + tail), _depth + 1)
            return qual
        return qual

    def resolve(self, module: Module, name: str) -> Optional[str]:
        """Resolve a dotted name used at module level of ``module``."""
        head, _, tail = name.partition(".")
        if head in module.funcs or head in module.classes or head in module.consts:
            q = f"{module.name}.{head}"
        elif head in module.imports:
            q = module.imports[head]
        elif head in BUILTINS:
            q = f"builtins.{head}"
        else:
            return None
        if tail:
            q = f"{q}.{tail}"
        return self.canonical(q)

    def lookup(self, qual: str):
        """Definition object (Func, Class, ast.expr, Module) of a canonical name, or None."""
        m = self.module(qual)
        if m is not None:
            return m
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if rest[0] in m.funcs and len(rest) == 1:
                return m.funcs[rest[0]]
            if rest[0] in m.classes:
                c = m.classes[rest[0]]
                if len(rest) == 1:
                    return c
                if len(rest) == 2:
                    return self.find_method(c, rest[1])
                return None
            if rest[0] in m.consts and len(rest) == 1:
                return m.consts[rest[0]]
            return None
        return None

    def module_of(self, qual: str) -> Optional[Module]:
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is not None:
                return m
        return None

    def mro(self, c: Class, _seen=None) -> list[Class]:
        seen = _seen if _seen is not None else set()
        if c.qual in seen:
            return []
        seen.add(c.qual)
        out = [c]
        for b in c.bases:
            d = dotted(b)
            if isinstance(b, ast.Subscript):
                d = dotted(b.value)
            if not d:
                continue
            q = self.resolve(c.module, d)
            t = self.lookup(q) if q else None
            if isinstance(t, Class):
                out.extend(self.mro(t, seen))
        return out

    def find_method(self, c: Class, name: str) -> Optional[Func]:
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def all_functions(self, module: Module) -> Iterator[Func]:
        yield from module.funcs.values()
        for c in module.classes.values():
            yield from c.methods.values()


def dotted(node) -> Optional[str]:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None
