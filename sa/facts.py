"""Canonical behaviour facts of a function and their comparison with a reference.

A function's facts are the guarded effects the abstract interpreter finds in it,
put into a form that does not depend on how the code is written: what may be
raised, what is returned, which elements end up in which collection, which
attributes and items are stored and which effectful calls are made - each with
the condition, as a propositional formula over canonical atoms, under which it
happens.  Two functions conform if each fact of one occurs in the other under an
equivalent condition.
"""
from __future__ import annotations

import ast
import itertools
from typing import Optional

from . import engine as E
from .engine import Engine, Event, as_cond, fmt, mk_elem, size, walk
from .index import Class, Func, Index, Module, dotted

T = ("T",)
F = ("F",)
PSEUDO_DROP = {"with", "try", "callback", "finally", "while"}

# ---------------------------------------------------------------- formulas ---


def f_not(f):
    if f == T:
        return F
    if f == F:
        return T
    if f[0] == "N":
        return f[1]
    return ("N", f)


def f_and(fs):
    out = []
    for f in fs:
        if f == F:
            return F
        if f == T:
            continue
        items = f[1] if f[0] == "&" else (f,)
        for x in items:
            if x not in out:
                out.append(x)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("&", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f == T:
            return T
        if f == F:
            continue
        items = f[1] if f[0] == "|" else (f,)
        for x in items:
            if x not in out:
                out.append(x)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ("|", tuple(out))


def atoms_of(f, acc=None):
    acc = acc if acc is not None else {}
    todo = [f]
    seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x[0] == "A":
            acc[x[1]] = None
        elif x[0] == "N":
            todo.append(x[1])
        elif x[0] == "X":
            todo.extend(x[1:])
        elif x[0] in ("&", "|"):
            todo.extend(x[1])
    return acc


def evaluate(f, env, pos=True):
    k = f[0]
    if k == "A":
        return env[f[1]]
    if k == "N":
        return not evaluate(f[1], env, not pos)
    if k == "&":
        return all(evaluate(x, env, pos) for x in f[1])
    if k == "|":
        return any(evaluate(x, env, pos) for x in f[1])
    if k == "X":  # some element of an iterable fits
        return evaluate(f[1], env, pos) if pos else evaluate(f[2], env, pos)
    return k == "T"


def fmt_f(f, d=0) -> str:
    if d > 6:
        return "..."
    k = f[0]
    if k == "A":
        return fmt(f[1])
    if k == "N":
        return "not " + fmt_f(f[1], d + 1)
    if k == "X":
        return "some element: " + fmt_f(f[1], d + 1)
    if k in ("&", "|"):
        return "(" + (" and " if k == "&" else " or ").join(fmt_f(x, d + 1) for x in f[1]) + ")"
    return "always" if k == "T" else "never"


# ------------------------------------------------------------------ theory ---
_DISJ = [
    {"builtins.str"}, {"builtins.bool"}, {"builtins.float"}, {"builtins.bytes"},
    {"builtins.list", "collections.abc.MutableSequence"}, {"builtins.tuple"},
    {"builtins.dict", "collections.abc.MutableMapping", "collections.abc.Mapping"},
    {"builtins.set", "collections.abc.Set"},
]
_SUB = {
    "builtins.list": {"collections.abc.MutableSequence", "collections.abc.Sequence", "collections.abc.Iterable", "typing.Iterable"},
    "collections.abc.MutableSequence": {"collections.abc.Sequence", "collections.abc.Iterable"},
    "builtins.tuple": {"collections.abc.Sequence"},
    "builtins.dict": {"collections.abc.MutableMapping", "collections.abc.Mapping"},
    "collections.abc.MutableMapping": {"collections.abc.Mapping"},
    "builtins.str": {"collections.abc.Sequence"},
    "builtins.bool": {"builtins.int"},
    "ruamel.yaml.comments.CommentedMap": {"collections.abc.MutableMapping", "collections.abc.Mapping", "builtins.dict"},
    "ruamel.yaml.comments.CommentedSeq": {"collections.abc.MutableSequence", "builtins.list"},
}


class Theory:
    """Which combinations of atoms can occur."""

    def __init__(self, ix: Index):
        self.ix = ix
        self._forced: dict = {}

    def constraints(self, atoms):
        """List of (kind, i, j): 'x' not both, 'i' i implies j."""
        cs = []
        al = list(atoms)
        by_subj: dict = {}
        for i, a in enumerate(al):
            if a[0] in ("isk", "eqc", "isnone", "truth", "isseq"):
                by_subj.setdefault(a[1], []).append(i)
            else:
                by_subj.setdefault(a, []).append(i)
        for subj, idxs in by_subj.items():
            # the subject itself used as a truth atom
            for i, j in itertools.combinations(idxs, 2):
                self._pair(al[i], al[j], i, j, cs)
        # missing key: get(b, k) is None
        for i, a in enumerate(al):
            if a[0] == "in":
                g = ("get", a[2], a[1], ("const", None))
                for j, b in enumerate(al):
                    if b == ("isnone", g):
                        cs.append(("ni", i, j))  # not i implies j
                    elif b == ("truth", g) or (b[0] in ("isk", "eqc") and b[1] == g):
                        cs.append(("i", j, i))
        return cs

    def _pair(self, a, b, i, j, cs):
        ka, kb = a[0], b[0]
        if ka == "isnone" or kb == "isnone":
            if ka == kb:
                return
            cs.append(("x", i, j))
            return
        if ka == "eqc" and kb == "eqc":
            cs.append(("x", i, j))
            return
        if ka == "truth" or kb == "truth":
            o, oi, ti = (b, j, i) if ka == "truth" else (a, i, j)
            if o[0] == "eqc" and o[2][0] == "const":
                if o[2][1]:
                    cs.append(("i", oi, ti))
                else:
                    cs.append(("x", oi, ti))
            return
        if ka == "isk" and kb == "isk":
            r = self.rel(a[2], b[2])
            if r == "<":
                cs.append(("i", i, j))
            elif r == ">":
                cs.append(("i", j, i))
            elif r == "x":
                cs.append(("x", i, j))
            return
        if {ka, kb} == {"isk", "eqc"}:
            k, e, ki, ei = (a, b, i, j) if ka == "isk" else (b, a, j, i)
            if e[2][0] == "const":
                tn = f"builtins.{type(e[2][1]).__name__}"
                r = "=" if tn == k[2] else self.rel(tn, k[2])
                if r in ("=", "<"):
                    cs.append(("i", ei, ki))
                elif r == "x":
                    cs.append(("x", ei, ki))

    def forced(self, a, v, b):
        """Value of atom b once atom a has value v, if it is determined."""
        key = (a, v, b)
        if key not in self._forced:
            cs: list = []
            sa = a[1] if a[0] in ("isk", "eqc", "isnone", "truth", "isseq") else a
            sb = b[1] if b[0] in ("isk", "eqc", "isnone", "truth", "isseq") else b
            if sa == sb:
                self._pair(a, b, 0, 1, cs)
            r = None
            for k, i, j in cs:
                if k == "x" and v:
                    r = False
                elif k == "i" and v and i == 0:
                    r = True
                elif k == "i" and not v and j == 0:
                    r = False
            self._forced[key] = r
        return self._forced[key]

    def rel(self, x, y):
        if x == y:
            return "="
        if y in _SUB.get(x, ()):
            return "<"
        if x in _SUB.get(y, ()):
            return ">"
        gx = next((k for k, s in enumerate(_DISJ) if x in s), None)
        gy = next((k for k, s in enumerate(_DISJ) if y in s), None)
        if gx is not None and gy is not None:
            return "x" if gx != gy else "?"
        cx, cy = self.ix.lookup(x) if "." in x else None, self.ix.lookup(y) if "." in y else None
        if isinstance(cx, Class) and isinstance(cy, Class):
            mx = {c.qual for c in self.ix.mro(cx)}
            my = {c.qual for c in self.ix.mro(cy)}
            if y in mx:
                return "<"
            if x in my:
                return ">"
            return "x"
        if (isinstance(cx, Class) and gy is not None) or (isinstance(cy, Class) and gx is not None):
            return "x"
        # the record classes of schema_salad are no containers, and unrelated
        mx, my = x.startswith("schema_salad.metaschema."), y.startswith("schema_salad.metaschema.")
        if (mx and (my or gy is not None)) or (my and gx is not None):
            return "x"
        return "?"

    def differ(self, f, g, care=T, limit=12):
        """An assignment on which the two formulas differ within ``care``, or None."""
        if f == g:
            return None
        acc = atoms_of(f)
        atoms_of(g, acc)
        al = list(acc)
        nk = len(al)
        for a in atoms_of(care):
            if a not in acc:
                acc[a] = None
                al.append(a)
        cs = self.constraints(al)
        n = len(al)

        def ok(v):
            for k, i, j in cs:
                if k == "x":
                    if v[i] and v[j]:
                        return False
                elif k == "i":
                    if v[i] and not v[j]:
                        return False
                elif not v[i] and not v[j]:
                    return False
            return True

        def test(v):
            env = dict(zip(al, v))
            if evaluate(f, env) != evaluate(g, env) and evaluate(care, env):
                return env
            return None

        if n <= limit:
            for bits in itertools.product((False, True), repeat=n):
                if ok(bits):
                    e = test(bits)
                    if e is not None:
                        return e
            return None
        left = [400000]
        for x, y in ((True, False), (False, True)):
            env = self._solve([(f, x, True), (g, y, True), (care, True, True)], al, cs, left)
            if env is not None:
                return env
        return None

    def _solve(self, reqs, al, cs, left):
        """An assignment of the atoms that meets all (formula, value, polarity) demands."""
        index = {a: i for i, a in enumerate(al)}
        adj: dict = {}
        for k, i, j in cs:
            if k == "x":
                adj.setdefault((i, True), []).append((j, False))
                adj.setdefault((j, True), []).append((i, False))
            elif k == "i":
                adj.setdefault((i, True), []).append((j, True))
                adj.setdefault((j, False), []).append((i, False))
            else:
                adj.setdefault((i, False), []).append((j, True))
                adj.setdefault((j, False), []).append((i, True))

        def assign(env, i, v):
            todo = [(i, v)]
            while todo:
                i, v = todo.pop()
                if i in env:
                    if env[i] != v:
                        return False
                    continue
                env[i] = v
                todo.extend(adj.get((i, v), ()))
            return True

        def build(h, v, pos):
            """The demand as a formula of literals, conjunctions and disjunctions."""
            k = h[0]
            if k == "A":
                return ("L", index[h[1]], v)
            if k == "N":
                return build(h[1], not v, not pos)
            if k == "X":
                return build(h[1] if pos else h[2], v, pos)
            if k in ("&", "|"):
                return join((k == "&") == v, [build(x, v, pos) for x in h[1]])
            return (k == "T") == v

        def join(every, parts):
            out: dict = {}
            for x in parts:
                if x is every:
                    continue
                if x is (not every):
                    return x
                if x[0] == ("&" if every else "|"):
                    out.update(dict.fromkeys(x[1]))
                else:
                    out[x] = None
            if not out:
                return every
            if len(out) == 1:
                return next(iter(out))
            return ("&" if every else "|", tuple(out))

        def under(n, env):
            """What remains of a demand when some atoms are settled."""
            left[0] -= 1
            if n is True or n is False:
                return n
            if n[0] == "L":
                w = env.get(n[1])
                return n if w is None else w == n[2]
            every = n[0] == "&"
            out = []
            for x in n[1]:
                y = under(x, env)
                if y is (not every):
                    return y
                out.append(y)
            return join(every, out)

        def go(n, env):
            while True:
                if left[0] < 0:
                    return None
                n = under(n, env)
                if n is False:
                    return None
                if n is True:
                    break
                units = [n] if n[0] == "L" else [x for x in n[1] if x[0] == "L"] if n[0] == "&" else []
                if not units:
                    break
                for x in units:
                    if not assign(env, x[1], x[2]):
                        return None
            if n is True:
                for i in range(len(al)):
                    if i in env:
                        continue
                    for v in (False, True):
                        e = dict(env)
                        if assign(e, i, v):
                            env = e
                            break
                    else:
                        return None
                return {a: env[i] for i, a in enumerate(al)}
            # decide the atom that occurs most in what remains
            seen: dict = {}
            todo = [n]
            while todo:
                x = todo.pop()
                if x[0] == "L":
                    seen[x[1]] = seen.get(x[1], 0) + 1
                else:
                    todo.extend(x[1])
            i = max(seen, key=lambda x: (seen[x], -x))
            for v in (True, False):
                e = dict(env)
                if assign(e, i, v):
                    e = go(n, e)
                    if e is not None:
                        return e
                if left[0] < 0:
                    return None
            return None

        return go(join(True, [build(*r) for r in reqs]), {})


# ------------------------------------------------------- canonical extraction --
PURE_METHODS = {
    "get", "keys", "values", "items", "split", "rsplit", "strip", "lstrip", "rstrip", "startswith", "endswith", "format",
    "join", "replace", "lower", "upper", "title", "copy", "index", "count", "encode", "decode", "group", "groups", "start",
    "end", "span", "match", "search", "fullmatch", "findall", "finditer", "sub", "hexdigest", "digest", "is_dir", "is_file",
    "exists", "as_uri", "resolve", "with_suffix", "joinpath", "relative_to", "objects", "subjects", "transitive_objects",
    "splitlines", "isdigit", "isalnum", "union", "intersection", "difference", "issubset", "makeError", "partition",
    "rpartition", "find", "rfind", "triples", "capitalize", "casefold", "removeprefix", "removesuffix", "absolute", "expanduser", "as_posix",
    "__contains__", "__getitem__", "fspath", "predicates", "value", "isoformat", "zfill",
}
PURE_PREFIX = (
    "os.path.", "urllib.parse.", "re.", "copy.copy", "copy.deepcopy", "json.dumps", "typing.", "pathlib.", "functools.",
    "itertools.", "collections.", "hashlib.", "uuid.", "inspect.", "operator.", "string.", "os.fspath", "os.environ",
    "schema_salad.utils.json_dumps", "ruamel.yaml.comments.", "xml.sax.saxutils.", "math.",
    "schema_salad.utils.aslist", "schema_salad.runtime.shortname", "schema_salad.runtime.file_uri", "schema_salad.runtime.prefix_url",
    "schema_salad.runtime.convert_typing", "schema_salad.runtime.extract_type", "schema_salad.sourceline.strip_dup_lineno",
    "importlib.resources.files", "os.getcwd", "packaging.", "ast.", "textwrap.", "datetime.",
)
IMPURE_BUILTINS = {"print", "open", "exec", "eval", "compile", "input", "setattr", "delattr", "__import__", "breakpoint", "exit", "quit"}
MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "remove", "discard", "clear", "sort", "setdefault", "popitem", "appendleft", "popleft", "reverse"}
COPIERS = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.dict", "builtins.sorted", "builtins.frozenset"}
DROP_KW = {"help", "description", "metavar", "epilog", "nosec"}


def _fills(d, n) -> bool:
    """Does the function change the collection passed for this parameter?"""
    for x in ast.walk(d.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id == n:
            return True
        if isinstance(x, (ast.Subscript, ast.Delete)) and not isinstance(getattr(x, "ctx", None), ast.Load) and isinstance(getattr(x, "value", None), ast.Name) and x.value.id == n:
            return True
    return False


NO_LOOP = ("noloop",)


class Facts:
    def __init__(self):
        self.f: dict = {}  # key -> formula
        self.where: dict = {}  # key -> set of locations
        self.unknown = False
        self.notes: list = []
        self.loops: set = set()

    def add(self, key, cond, where=None):
        if cond == F:
            return
        self.f[key] = f_or([self.f.get(key, F), cond])
        if where:
            self.where.setdefault(key, set()).add(where)


class Extractor:
    """Facts of functions of one source tree."""

    def __init__(self, ix: Index, shared=None, extra_inline=None, norm=None, expand=True):
        self.ix = ix
        self.expand = expand  # split facts at the choices inside their terms
        self.shared = shared if shared is not None else (lambda q: True)
        self.extra = extra_inline or (lambda q: False)
        self._purity: dict = {}
        self.theory = Theory(ix)
        self.norm = norm  # renaming of global names (sibling comparison)
        self._memo: dict = {}

    # -- which calls are opaque -------------------------------------------------
    def _inline(self, q: str) -> bool:
        return self.extra(q) or not self.shared(q)

    def facts(self, func: Func, args=None, inline=None, deep=False) -> Facts:
        key = (func.qual, tuple(sorted((args or {}).items())) if args else (), inline is not None and id(inline))
        if key in self._memo and not deep:
            return self._memo[key]
        eng = Engine(self.ix, inline=inline or self._inline, exact=True, max_events=8000)
        out = Facts()
        try:
            r = eng.run(func, args)
        except (E.Budget, RecursionError):
            out.unknown = True
            out.notes.append("budget")
            self._memo[key] = out
            return out
        one = _One(self, func, r, out)
        one.run()
        self._memo[key] = out
        if deep:
            # once more, with each local collection named by what it is made of
            again = _One(self, func, r, Facts())
            again.sig = {u: hash(frozenset(one.made.get(u, ()))) for u in one.mut if u not in one.fold}
            again.run()
            again.out.made = sorted((hash(frozenset(one.made.get(u, ()))), sorted(fmt(x)[:120] for x in one.made.get(u, ()))) for u in again.sig)
            return again.out
        return out

    def pure(self, q: str, depth=0) -> bool:
        """A package function without effects of its own and without raises."""
        if q in self._purity:
            return self._purity[q]
        self._purity[q] = True
        d = self.ix.lookup(q)
        res = True
        if isinstance(d, Func) and d.cls is not None and "attrs" in d.cls.attrs:
            return True
        if isinstance(d, Func) and depth < 4:
            try:
                fs = self.facts(d, inline=lambda _q: False)
            except BaseException:
                del self._purity[q]
                raise
            for k in fs.f:
                if k[0] in ("raise", "call", "store", "item", "del", "content", "yield", "global"):
                    if k[0] == "content" and k[1] and k[1][0] in ("ret", "local"):
                        continue
                    res = False
                    break
            if fs.unknown:
                res = False
        elif isinstance(d, Func):
            res = False
        self._purity[q] = res
        return res


class _One:
    def __init__(self, ex: Extractor, func: Func, res: E.Result, out: Facts):
        self.ex = ex
        self.ix = ex.ix
        self.func = func
        self.res = res
        self.out = out
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        self.pos = {n: i for i, n in enumerate(names)}
        for x in a.kwonlyargs:
            self.pos[x.arg] = "k:" + x.arg
        if a.vararg:
            self.pos[a.vararg.arg] = "*"
        if a.kwarg:
            self.pos[a.kwarg.arg] = "**"
        self.cache: dict = {}
        self.mut: dict = {}
        self.fold: dict = {}
        self.roles: dict = {}
        self.iters: set = set()
        self.sig: dict = {}  # second pass: what each local collection is made of
        self.made: dict = {}
        self.owner = None

    # -- terms -------------------------------------------------------------------
    def c(self, t):
        if not isinstance(t, tuple):
            if isinstance(t, frozenset):
                return frozenset(self.c(x) for x in t)
            return t
        r = self.cache.get(t)
        if r is None:
            r = self._c(t)
            self.cache[t] = r
        return r

    def name(self, q):
        return self.ex.norm(q) if self.ex.norm else q

    def _c(self, t):
        if not t:
            return t
        k = t[0]
        if not isinstance(k, str):
            return tuple(self.c(x) for x in t)
        if k == "param":
            return ("p", self.pos.get(t[1], t[1]))
        if k == "const":
            return t
        if k == "global":
            if not self.ex.shared(t[1]) and isinstance(self.ix.lookup(t[1]), Func):
                return ("func",)
            return ("global", self.name(t[1]))
        if k == "new":
            uid = t[1]
            if uid != () and uid in self.fold:
                return ("new", t[2], _flat([self.c(x) for x in self.fold[uid]]))
            if uid != () and uid in self.mut:
                return ("coll", t[2], self.sig[uid]) if uid in self.sig else ("coll", t[2])
            return ("new", t[2], _flat([self.c(x) for x in t[3]]))
        if k == "comp":
            gs = frozenset(self._guard_key(g) for g in t[3] if g[0][0] not in PSEUDO_DROP)
            return ("comp", "gen" if t[1] == "gen" else t[1], self.c(t[2]), gs)
        if k == "func":
            return ("func",)
        if k in ("undef", "loopval"):
            return (k,)
        if k == "elem" and t[1][0] == "new" and t[1][2] in ("list", "tuple") and len(t[1][3]) == 1 and t[1][3][0][0] != "star" and t[1][1] not in self.mut and t[1][1] not in self.fold:
            return self.c(t[1][3][0])
        if k == "gen":
            return ("gen", self.c(t[1]) if isinstance(t[1], tuple) else "", self.c(t[2]))
        if k in ("try", "except") and len(t) == 3:
            return (k, t[1])
        if k in ("or2",):
            a, b = t[1], t[2]
            return self.c(("ite", as_cond(a), a, b))
        if k in ("and2",):
            a, b = t[1], t[2]
            return self.c(("ite", as_cond(a), b, a))
        if k == "ite":
            a, b = self.c(t[2]), self.c(t[3])
            if a == b:
                return a
            for x, y, pol in ((a, b, True), (b, a, False)):
                if x[0] == "comp" and x[1] in ("list", "gen") and y[0] == "new" and y[1] in ("list", "tuple") and not y[2]:
                    gs = E.pos_guard(t[1]) if pol else E.neg_guard(t[1])
                    return x[:3] + (x[3] | frozenset(self._guard_key(g) for g in gs),)
            return self._choice(t[1], a, b)
        if k == "phi":
            leaves = set()
            todo = [self.c(x) for x in t[1]]
            while todo:
                x = todo.pop()
                if x[0] == "ite":
                    todo += [x[2], x[3]]
                elif x[0] == "phi":
                    todo += list(x[1])
                else:
                    leaves.add(x)
            return ("phi", frozenset(leaves)) if len(leaves) > 1 else next(iter(leaves))
        if k == "call":
            if t[1][0] == "attr" and t[1][2] == "join" and len(t[2]) == 1 and t[2][0][0] == "new" and t[2][0][1] in self.fold and t[1][1][0] == "const":
                els = [self.c(x) for x in self.fold[t[2][0][1]]]
                if not any(x[0] == "star" for x in els):
                    return E.mk_str([y for i, x in enumerate(els) for y in ([t[1][1], x] if i else [x])])
            return self._call_term(t)
        if k == "getattr":
            return ("getattr", self.c(t[1]), t[2], self.c(t[3]))
        if k == "str":
            return E.mk_str([self.c(x) for x in t[1]])
        if k == "isinst":
            return ("isinst", self.c(t[1]), frozenset(self.name(x) for x in t[2]))
        return (k,) + tuple(self.c(x) for x in t[1:])

    # choices are kept as ordered decision trees, so that the way nested and
    # negated conditions are written does not matter
    def _choice(self, c, a, b, limit=10):
        f = self._formula(as_cond(c))
        if f == T:
            return a
        if f == F:
            return b
        atoms = dict.fromkeys(atoms_of(f))
        todo = [a, b]
        while todo:
            x = todo.pop()
            if x[0] == "ite":
                atoms[x[1]] = None
                todo += [x[2], x[3]]
        al = sorted(atoms, key=repr)
        if len(al) > (limit if self.ex.expand else 12) or _has_x(f):
            leaves: set = set()
            todo = [a, b]
            while todo:
                x = todo.pop()
                if x[0] == "ite":
                    todo += [x[2], x[3]]
                elif x[0] == "choice":
                    leaves |= x[2]
                    atoms.update(dict.fromkeys(x[1]))
                else:
                    leaves.add(x)
            return ("choice", frozenset(atoms), frozenset(leaves))
        th = self.ex.theory
        memo: dict = {}

        def leaf(x, env):
            while x[0] == "ite" and x[1] in env:
                x = x[2] if env[x[1]] else x[3]
            return x

        def build(i, env):
            while i < len(al) and al[i] in env:
                i += 1
            if i == len(al):
                return leaf(a if evaluate(f, env) else b, env)
            at = al[i]
            out = []
            for v in (True, False):
                e2 = dict(env)
                e2[at] = v
                for o in al:
                    if o not in e2:
                        w = th.forced(at, v, o)
                        if w is not None:
                            e2[o] = w
                out.append(build(i + 1, e2))
            if out[0] == out[1]:
                return out[0]
            return ("ite", at, out[0], out[1])

        return build(0, {})

    def _guard_key(self, g):
        return (self.c(g[0]), g[1])

    def _cond_key(self, c):
        return self.c(as_cond(c)) if as_cond(c)[0] != "ite" else ("itecond",) + tuple(self.c(x) for x in as_cond(c)[1:])

    def _bind(self, f, args, kws):
        """Positional canonical form of the arguments of a package function/class."""
        d = None
        if f[0] == "global":
            d = self.ix.lookup(f[1])
            skip = 0
            if isinstance(d, Class):
                d = self.ix.find_method(d, "__init__")
                skip = 1
            elif isinstance(d, Func) and d.clsmethod:
                skip = 1
        if not isinstance(d, Func):
            return None
        a = d.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        dfl = dict(zip([x.arg for x in a.posonlyargs + a.args][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        if any(x[0] == "star" for x in args):
            return None
        out = {}
        for i, v in enumerate(args):
            out[names[i] if i < len(names) else f"*{i}"] = v
        for k, v in kws:
            out[k if k is not None else "**"] = v
        res = []
        for n, v in out.items():
            if n in dfl:
                dv = dfl[n]
                if isinstance(dv, ast.Constant) and v == ("const", dv.value):
                    continue
            x = self.c(v)
            if v[0] == "new" and not v[3] and self.res.eng.rounds.get(v[1]) and _fills(d, n):
                x = ("each", x)  # the callee fills a collection of this round only
            res.append((n, x))
        return tuple(sorted(res, key=lambda x: x[0]))

    def _call_term(self, t):
        f, args, kws = t[1], t[2], t[3]
        if f[0] == "global":
            q = f[1]
            if q in COPIERS and len(args) == 1 and not kws and q != "builtins.dict":
                x = self.c(args[0])
                if x[0] == "comp" and x[1] in ("gen", "list"):
                    return ("comp", q.split(".")[1],) + x[2:]
            if q.startswith("logging."):
                return ("log",)
            b = self._bind(f, args, kws)
            if b is not None:
                return ("callb", ("global", self.name(q)), b)
        fc = self.c(f)
        ks = tuple(sorted(((k or "**", self.c(v)) for k, v in kws if k not in DROP_KW), key=lambda x: x[0]))
        return ("call", fc, tuple(self.c(a) for a in args), ks)

    # -- conditions ----------------------------------------------------------------
    def _bool(self, t) -> bool:
        """Is the value True or False?"""
        k = t[0]
        if k == "ite":
            return self._bool(t[2]) and self._bool(t[3])
        if k in ("or2", "and2"):
            return self._bool(t[1]) and self._bool(t[2])
        if k == "phi":
            own = [x for x in t[1] if x[0] not in ("loopval", "undef")]
            return bool(own) and all(self._bool(x) for x in own)
        if k == "call" and t[1][0] == "global":
            d = self.ix.lookup(t[1][1])
            if isinstance(d, Func):
                r = d.node.returns
                return isinstance(r, ast.Name) and r.id == "bool"
        return _BOOL(t)

    def formula(self, t, pol=True):
        f = self._formula(t)
        return f if pol else f_not(f)

    def _formula(self, t, depth=0):
        k = t[0]
        if depth > 30:
            return ("A", ("deep",))
        if k == "const":
            return T if t[1] else F
        if k == "not":
            return f_not(self._formula(t[1], depth + 1))
        if k == "and":
            return f_and([self._formula(x, depth + 1) for x in t[1]])
        if k == "or":
            return f_or([self._formula(x, depth + 1) for x in t[1]])
        if k == "and2":
            return f_and([self._formula(t[1], depth + 1), self._formula(t[2], depth + 1)])
        if k == "or2":
            return f_or([self._formula(t[1], depth + 1), self._formula(t[2], depth + 1)])
        if k == "ite":
            c = self._formula(t[1], depth + 1)
            return f_or([f_and([c, self._formula(t[2], depth + 1)]), f_and([f_not(c), self._formula(t[3], depth + 1)])])
        if k == "call" and t[1][0] == "global" and t[1][1] in ("builtins.any", "builtins.all") and len(t[2]) == 1:
            x = t[2][0]
            if x[0] == "comp" and x[1] != "dict":
                neg = f_not if t[1][1] == "builtins.all" else (lambda f: f)
                if x[2][0] == "phi" and not any(g[0][0] == "loop" for g in x[3]):
                    # the written-out elements of a literal
                    body = f_or([neg(self._formula(y, depth + 1)) for y in sorted(x[2][1], key=repr)])
                else:
                    body = neg(self._formula(x[2], depth + 1))
                gs = [self._guard(g, payload=("tuple", x[2]) + tuple(h[0] for h in x[3] if h is not g and h[0][0] != "loop")) for g in x[3]]
                inner = f_and(gs + [body])
                lp = [g[0][1] for g in x[3] if g[0][0] == "loop"]
                r = self.exists(inner, lp[0] if lp else NO_LOOP)
                return r if t[1][1] == "builtins.any" else f_not(r)
            if x[0] == "new" and x[2] in ("tuple", "list") and x[3] and x[1] not in self.mut:
                fs = []
                for y in x[3]:
                    if y[0] != "star":
                        fs.append(self._formula(as_cond(y), depth + 1))
                    elif y[1][0] == "ite":
                        g, z = E.split_iter(y[1])
                        sub = self._formula(("call", t[1], (z,), ()), depth + 1)
                        gf = self.cond(g)
                        fs.append(f_and([gf, sub]) if t[1][1] == "builtins.any" else f_or([f_not(gf), sub]))
                    else:
                        fs.append(self._formula(("call", t[1], (y[1],), ()), depth + 1))
                return f_or(fs) if t[1][1] == "builtins.any" else f_and(fs)
        if k == "comp" and t[1] != "dict":
            lp = [g[0][1] for g in t[3] if g[0][0] == "loop"]
            gs = [self._guard(g, payload=("tuple",) + tuple(h[0] for h in t[3] if h is not g and h[0][0] != "loop")) for g in t[3]]
            return self.exists(f_and(gs), lp[0] if lp else NO_LOOP)
        if k == "found":
            return self.found(t[1])
        if k == "phi":
            inner = f_or([self._formula(x, depth + 1) for x in sorted(t[1], key=repr) if x[0] not in ("loopval", "undef")])
            if inner in (T, F):
                return ("A", ("truth", self.c(t)))
            if self._bool(t):
                el = [x[1] for x in walk(tuple(t[1])) if x[0] in ("elem", "valof")]
                return self.exists(inner, el[0] if el else None)
            return ("A", ("truth", self.c(t)))
        if k == "call" and t[1] == ("global", "builtins.bool") and len(t[2]) == 1:
            return self._formula(t[2][0], depth + 1)
        ln = E._len_of(t)
        if ln is not None:
            return self._formula(ln, depth + 1)
        # lift choices out of atoms
        x = _first_ite(t) if self.ex.expand else None
        if x is not None and size(t, 400) <= 400:
            c = self._formula(x[1], depth + 1)
            a = E_simplify(_replace(t, x, x[2]))
            b = E_simplify(_replace(t, x, x[3]))
            return f_or([f_and([c, self._formula(a, depth + 1)]), f_and([f_not(c), self._formula(b, depth + 1)])])
        if k == "isinst":
            s = t[1]
            if s[0] == "new":
                return T if f"builtins.{s[2]}" in t[2] else ("A", ("isinst?", self.c(s), t[2]))
            cs = self.c(s)
            return f_or([("A", ("isk", cs, self.name(n))) for n in sorted(t[2], key=str)])
        if k == "oneof":
            s = self.c(t[1])
            fs = []
            for v in sorted(t[2], key=repr):
                if v == ("const", None):
                    fs.append(("A", ("isnone", s)))
                else:
                    fs.append(("A", ("eqc", s, self.c(v))))
            return f_or(fs)
        if k == "isnone":
            s = t[1]
            if s[0] in ("new", "str", "func", "coll", "slice", "comp", "bin") or s[0] == "call" and (
                s[1][0] == "attr" and s[1][2] in ("split", "rsplit", "strip", "replace", "lower", "upper", "join", "format", "lstrip", "rstrip", "keys", "values", "items")
                or s[1][0] == "global" and s[1][1] in ("builtins.int", "builtins.str", "builtins.len", "builtins.list", "builtins.set", "builtins.dict", "builtins.tuple")
            ):
                return F
            if s[0] == "const":
                return T if s[1] is None else F
            if s[0] == "global" and isinstance(self.ix.lookup(s[1]), (Func, Class)):
                return F
            if s[0] == "ite":
                return self._formula(("ite", s[1], ("isnone", s[2]), ("isnone", s[3])), depth + 1)
            return ("A", ("isnone", self.c(s)))
        if k == "lt":
            return f_not(("A", ("le", self.c(t[2]), self.c(t[1]))))
        if k == "hasattr":
            return ("A", ("hasattr", self.c(t[1]), t[2]))
        if k == "in" and t[2][0] == "new" and t[2][2] in ("list", "tuple", "set") and t[2][1] not in self.mut and t[2][3] and not any(x[0] == "star" for x in t[2][3]):
            return f_or([self._formula(E.mk_cmp("==", t[1], x), depth + 1) for x in t[2][3]])
        if k == "eq":
            a, b = self.c(t[1]), self.c(t[2])
            if (a[0] == "global") != (b[0] == "global"):
                if a[0] == "global":
                    a, b = b, a
                return ("A", ("eqc", a, b))
            if repr(b) < repr(a):
                a, b = b, a
            return ("A", ("eq", a, b))
        if k in ("in", "is", "le", "cmp", "isseq"):
            return ("A", self.c(t))
        if k == "new" and t[1] not in self.mut:
            return T if t[3] else F
        tv = E.truthy(t)
        if tv is not None:
            return T if tv else F
        return ("A", ("truth", self.c(t)))

    def _guard(self, g, depth=0, payload=None):
        t, pol = g
        if t[0] in PSEUDO_DROP:
            return T
        if t[0] == "loop":
            it = t[1]
            if it[0] == "while":
                return T
            self.out.loops.add(self.c(it))
            if payload is not None and _mentions_elem(tuple(x for x in payload if x is not None), it):
                return T
            return ("A", ("loop", self.c(_iterable(it))))
        if t[0] == "found":
            return self.formula(t, pol)
        if t[0] == "except":
            return ("A", ("except", t[1]))
        if t[0] == "or" and False:
            pass
        return self.formula(t, pol)

    def cond(self, guards, payload=None):
        f = self._cond(guards, payload)
        loops = {}
        for i, g in enumerate(guards):
            if g[0][0] == "loop" and g[1] and g[0][1][0] != "while":
                loops.setdefault(self.c(_iterable(g[0][1])), i)
        if not loops:
            return f
        # while iterating over X, X is neither empty nor None
        env = {}
        for x, i in loops.items():
            env[("truth", x)] = T
            env[("isnone", x)] = F
            if _plain(x):
                key = ("iter", x)
                if (key, guards[:i]) not in self.iters:
                    self.iters.add((key, guards[:i]))
                    h = _subst(self._cond(guards[:i]), {("truth", x): ("N", ("A", ("isnone", x)))})
                    self.out.add(key, h)
        return _subst(f, env)

    def _cond(self, guards, payload=None):
        fs = []
        for g in guards:
            ctx = None
            if g[0][0] == "loop":
                ctx = ("tuple", payload) + tuple(h[0] for h in guards if h is not g and (h[0][0] != "loop" or h[0][1] != g[0][1]))
            fs.append(self._guard(g, payload=ctx))
        return f_and(fs)

    def found(self, it):
        return ("A", ("found", self.c(_iterable(it)) if it is not None else ""))

    def exists(self, inner, it):
        """Something is looked for among the elements of an iterable."""
        if it is NO_LOOP or it is not None and E._literal_elements(it) is not None:
            return inner  # the element stands for each of the written-out values
        fd = self.found(it)
        if inner not in (T, F):
            self.out.add(("search", fd[1][1]), inner)
        return ("X", inner, fd)

    # -- main --------------------------------------------------------------------
    def run(self):
        evs = self.res.events
        self._collections(evs)
        rets = []
        for e in evs:
            w = e.loc()
            if e.kind == "raise":
                self._raise(e, w)
            elif e.kind == "return" and len(e.stack) == 1:
                rets.append((e.term, e.guards, w))
            elif e.kind == "yield" and len(e.stack) == 1:
                self._payload(("yield",), e.term, e.guards, w)
            elif e.kind == "store_attr":
                self._store("store", e, w)
            elif e.kind == "store_item":
                self._store_item(e, w)
            elif e.kind == "store_global":
                self._payload(("global", e.name), e.value, e.guards, w)
            elif e.kind == "backwards":
                self.out.add(("backwards", self.c(_iterable(e.term))), T, w)
            elif e.kind == "repeat":
                for t, f in self._alts(e.term):
                    self._emit(("repeat", self.c(t)), e.guards, w, extra=f)
            elif e.kind == "del":
                self._emit(("del", self.base(e.base), self.c(e.name) if isinstance(e.name, tuple) else e.name), e.guards, w)
            elif e.kind == "call" and e.name not in ("inlined", "get"):
                self._call(e, w)
        if self.res.end is not None:
            rets.append((E.NONE, self.res.end.guards, f"{self.func.module.rel()}:{getattr(self.func.node, 'end_lineno', 0)}"))
        if not all(t == E.NONE for t, _, _ in rets):
            for t, g, w in rets:
                self._return(t, g, w)
        for e in evs:
            if e.kind in ("break", "return", "raise"):
                n0 = e.name or 0 if e.kind == "return" else 0
                lp = [i for i, x in enumerate(e.guards) if i >= n0 and x[0][0] == "loop" and x[0][1][0] != "while"]
                if lp:
                    k = lp[-1] if e.kind == "break" else lp[0]
                    it = e.guards[k][0][1]
                    if e.kind == "break" and any(x[0][0] == "loop" for x in e.guards[k + 1:]):
                        continue
                    f = self.cond(e.guards[k:])
                    self.out.add(("search", self.c(_iterable(it))), f, e.loc())
        for k in self.out.f:
            if size(k, 4000) > 4000 or _has_unknown(k):
                self.out.notes.append("unknown term")

    def _emit(self, key, guards, w, extra=T, payload=None):
        self.out.add(key, _unloop(f_and([self.cond(guards, payload=payload), extra]), key), w)

    def _known(self, c, known):
        """Value of condition c where the conjuncts of `known` hold, if that settles it."""
        if c == T or c == F:
            return c == T
        if c in known:
            return True
        if f_not(c) in known:
            return False
        k = c[0]
        if k == "A":
            for x in known:
                if x[0] == "A" or x[0] == "N" and x[1][0] == "A":
                    v = self.ex.theory.forced((x if x[0] == "A" else x[1])[1], x[0] == "A", c[1])
                    if v is not None:
                        return v
            return None
        if k == "N":
            v = self._known(c[1], known)
            return None if v is None else not v
        if k in ("&", "|"):
            vs = [self._known(x, known) for x in c[1]]
            if k == "&":
                return False if False in vs else True if all(vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        return None

    def _alts(self, t, limit=24, given=T, always=False):
        """(choice-free term, formula) alternatives of a raw term."""
        if not self.ex.expand and not always:
            return [(t, T)]
        out = []
        todo = [(t, T)]
        while todo:
            x, f = todo.pop()
            if len(out) + len(todo) >= limit:
                out.append((x, f))
                continue
            if x[0] == "phi":
                for y in sorted(x[1], key=repr):
                    todo.append((y, f))
                continue
            if x[0] == "or2":
                x = ("ite", as_cond(x[1]), x[1], x[2])
            if x[0] == "and2":
                x = ("ite", as_cond(x[1]), x[2], x[1])
            i = x if x[0] == "ite" else _first_ite(x)
            if i is None or size(x, 1200) > 1200:
                out.append((x, f))
                continue
            c = self.formula(as_cond(i[1]))
            v = self._known(c, dict.fromkeys(y for g in (f, given) for y in (g[1] if g[0] == "&" else (g,))))
            if v is not False:
                todo.append((E_simplify(_replace(x, i, i[2])), f if v else f_and([f, c])))
            if not v:
                todo.append((E_simplify(_replace(x, i, i[3])), f if v is False else f_and([f, f_not(c)])))
        return [(x, f) for x, f in out if f != F]

    def _joined(self, t):
        """The values of different ways through a function, not of a loop's rounds."""
        if t[0] == "ite":
            return self._joined(t[2]) or self._joined(t[3])
        return t[0] == "phi" and self.ex.expand and any(x[0] != "const" for x in t[1]) and not any(
            x[0] in ("elem", "valof", "loopval") for x in walk(tuple(t[1])))

    def _payload(self, head, term, guards, w):
        if self._bool(term) and not self._joined(term):
            f = self.formula(as_cond(term))
            if f not in (T, F):
                self._emit(head + (("const", True),), guards, w, f)
                self._emit(head + (("const", False),), guards, w, f_not(f))
                return
        for x, f in self._alts(term, given=self.cond(guards)):
            if self._bool(x) and x[0] != "const":
                g = self.formula(as_cond(x))
                self._emit(head + (("const", True),), guards, w, f_and([f, g]))
                self._emit(head + (("const", False),), guards, w, f_and([f, f_not(g)]))
                continue
            self._emit(head + (self.c(x),), guards, w, f, payload=x)

    def _return(self, t, g, w):
        for x, f in ([(t, T)] if self._bool(t) and not self._joined(t) else self._alts(t, given=self.cond(g))):
            if x[0] == "new" and x[2] == "tuple":
                for i, y in enumerate(x[3]):
                    self._content_or(("return", i), y, g, w, f)
                continue
            self._content_or(("return", None), x, g, w, f)

    def _content_or(self, head, x, g, w, f):
        if x[0] == "new" and x[2] in ("list", "set", "dict") and x[1] not in self.fold:
            self.out.add(head + (("coll", x[2]),), f_and([self.cond(g), f]), w)
            for y in x[3]:
                self._elem(("ret",), y, g, w, f)
            return
        if x[0] == "call" and x[1][0] == "global" and x[1][1] in ("builtins.sorted",) and x[2] and x[2][0][0] == "comp":
            x = x[2][0]
        if x[0] == "comp":
            self.out.add(head + (("coll", {"gen": "list"}.get(x[1], x[1])),), f_and([self.cond(g), f]), w)
            self._elem(("ret",), x[2], tuple(g) + tuple(x[3]), w, f)
            return
        if self._bool(x) and x[0] != "const":
            h = self.formula(as_cond(x))
            self._emit(head + (("const", True),), g, w, f_and([f, h]))
            self._emit(head + (("const", False),), g, w, f_and([f, f_not(h)]))
            return
        self._emit(head + (self.c(x),), g, w, f, payload=x)

    def _elem(self, role, y, g, w, f=T):
        if y[0] == "star":
            z = y[1]
            if z[0] == "comp":
                self._elem(role, z[2], tuple(g) + tuple(z[3]), w, f)
                return
            if z[0] == "new" and z[2] in ("list", "tuple", "set", "dict") and z[1] not in self.mut:
                for q in z[3]:
                    self._elem(role, q, g, w, f)
                return
            if z[0] in ("ite", "or2", "and2"):
                alts = self._alts(z)
                if not (len(alts) == 1 and alts[0][0] == z):
                    for q, h in alts:
                        self._elem(role, ("star", q) if q != z else mk_elem(z), g, w, f_and([f, h]))
                    return
            y = ("pair", mk_elem(z), ("valof", z)) if False else mk_elem(z)
        if y[0] == "pair":
            for v, h in self._alts(y[2], given=self.cond(g)):
                self.made.setdefault(self.owner, set()).add(("pair", self.c(y[1]), self.c(v)))
                self._emit(("content", role, ("pair", self.c(y[1]), self.c(v))), g, w, f_and([f, h]), payload=y)
            return
        for v, h in self._alts(y, given=self.cond(g)):
            self.made.setdefault(self.owner, set()).add(self.c(v))
            self._emit(("content", role, self.c(v)), g, w, f_and([f, h]), payload=v)

    def _raise(self, e, w):
        t = e.term
        if t == ("reraise",):
            self._emit(("raise", "reraise"), e.guards, w)
            return
        for x, f in self._alts(t):
            n = _exc_name(x)
            self._emit(("raise", self.name(n) if n else "other"), e.guards, w, f)
        for x, f in self._alts(t, always=True):
            n = _exc_name(x)
            if n and x[0] == "call":
                told: dict = {}
                for y in list(x[2]) + [v for _, v in x[3]]:
                    _told(self.c(y), told)
                for y in told:
                    self._emit(("says", self.name(n), y), e.guards, w, f)

    def base(self, b):
        """Canonical name of an object that is changed."""
        if b is None:
            return None
        if b[0] == "call":
            f = b[1]
            if f[0] == "global":
                d = self.ix.lookup(f[1])
                if isinstance(d, Class):
                    return ("obj", self.name(f[1]))
        if b[0] == "new":
            return ("coll", b[2], self.sig[b[1]]) if b[1] in self.sig else ("coll", b[2])
        if b[0] == "attr":
            return ("attr", self.base(b[1]), b[2])
        if b[0] == "item":
            return ("item", self.base(b[1]), self.c(b[2]))
        return self.c(b)

    def _store(self, kind, e, w):
        for b, f in self._alts(e.base):
            for v, h in ([(e.value, T)] if self._bool(e.value) else self._alts(e.value, given=self.cond(e.guards))):
                if self._bool(v) and v[0] != "const":
                    p = self.formula(as_cond(v))
                    self._emit((kind, self.base(b), e.name, ("const", True)), e.guards, w, f_and([f, h, p]))
                    self._emit((kind, self.base(b), e.name, ("const", False)), e.guards, w, f_and([f, h, f_not(p)]))
                else:
                    key = (kind, self.base(b), e.name, self._vc(v))
                    self._emit(key, e.guards, w, f_and([f, h]), payload=("tuple", b, v))

    def _vc(self, v):
        return self.c(v)

    def _store_item(self, e, w):
        for b, f in self._alts(e.base):
            if b[0] == "new" and b[1] in self.mut:
                if b[1] in self.fold:
                    continue
                self._elem(self.role(b[1]), ("pair", e.name, e.value), e.guards, w, f)
                continue
            for v, h in self._alts(e.value):
                key = ("item", self.base(b), self.c(e.name), self.c(v))
                self._emit(key, e.guards, w, f_and([f, h]), payload=("tuple", b, e.name, v))

    def role(self, uid):
        self.owner = uid
        return self.roles.get(uid, ("local",))

    def _call(self, e, w):
        t = e.term
        f = t[1]
        if f[0] == "attr" and f[2] in MUTATORS:
            self._mutate(e, f[1], f[2], t[2], t[3], w)
            return
        k = self.effect(f)
        if not k:
            return
        if f[0] == "global" and f[1].startswith("logging."):
            lvl = f[1].rsplit(".", 1)[1]
            if lvl in ("warning", "error", "exception", "critical", "warn"):
                self._emit(("log", lvl), e.guards, w)
            return
        if f[0] == "attr" and f[2] in ("debug", "info", "warning", "warn", "error", "exception", "critical") and "logger" in repr(f[1]).lower():
            if f[2] not in ("debug", "info"):
                self._emit(("log", f[2]), e.guards, w)
            return
        if f[0] == "ite":
            return
        for x, h in self._alts(t, given=self.cond(e.guards)):
            if x[0] != "call":
                continue
            self._emit(("call", self.c(x)), e.guards, w, h, payload=x)

    def effect(self, f) -> bool:
        if f[0] == "global":
            q = f[1]
            if q.startswith("builtins."):
                return q[9:] in IMPURE_BUILTINS
            if any(q.startswith(p) for p in PURE_PREFIX):
                return False
            d = self.ix.lookup(q)
            if isinstance(d, Class):
                return False
            if isinstance(d, Func):
                return not self.ex.pure(q)
            last = q.split(".")[-1]
            if last[:1].isupper() or last in PURE_METHODS:
                return False
            return True
        if f[0] == "attr":
            if f[2] in PURE_METHODS:
                return False
            return True
        if f[0] == "func":
            return True
        return True

    def _mutate(self, e, base, name, args, kws, w):
        for b, f in self._alts(base):
            if b[0] == "new":
                if b[1] in self.fold:
                    continue
                role = self.role(b[1])
            else:
                role = ("of", self.base(b))
                self.owner = None
            if name in ("append", "add", "appendleft") and len(args) == 1:
                self._elem(role, args[0], e.guards, w, f)
            elif name == "insert" and len(args) == 2:
                self._elem(role, args[1], e.guards, w, f)
            elif name == "update" and b[0] != "new" and len(args) == 1 and args[0][0] == "new" and args[0][2] == "dict" and args[0][1] not in self.mut and args[0][3] and all(x[0] == "pair" for x in args[0][3]):
                for x in args[0][3]:
                    for v, h in self._alts(x[2]):
                        self._emit(("item", self.base(b), self.c(x[1]), self.c(v)), e.guards, w, f_and([f, h]), payload=("tuple", b, x[1], v))
            elif name in ("extend", "update") and len(args) == 1:
                self._elem(role, ("star", args[0]), e.guards, w, f)
            elif name == "setdefault" and b[0] == "new":
                self._elem(role, ("pair", args[0], args[1] if len(args) > 1 else E.NONE), e.guards, w, f)
            else:
                key = ("mut", role, name, tuple(self.c(a) for a in args), tuple((k, self.c(v)) for k, v in kws))
                self._emit(key, e.guards, w, f)

    # -- collections ---------------------------------------------------------------
    def _collections(self, evs):
        muts: dict = {}
        for e in evs:
            b = None
            if e.kind == "call" and e.term[1][0] == "attr" and e.term[1][2] in MUTATORS and e.name != "inlined":
                b = e.term[1][1]
            elif e.kind in ("store_item", "del"):
                b = e.base
            if b is None:
                continue
            for x in E.alternatives(b):
                if x[0] == "new" and x[1] != ():
                    muts.setdefault(x[1], []).append((e, x))
        for uid, lst in muts.items():
            self.mut[uid] = True
            t = lst[0][1]
            if t[2] == "list":
                g0 = lst[0][0].guards
                ok = all(e.guards == g0 and e.kind == "call" and e.term[1][2] in ("append", "extend") and len(e.term[2]) == 1 for e, _ in lst)
                if ok and not any(g[0][0] == "loop" for g in g0):
                    elts = list(t[3])
                    for e, _ in lst:
                        a = e.term[2][0]
                        if e.term[1][2] == "append":
                            elts.append(a)
                        elif a[0] == "new" and a[2] in ("list", "tuple") and a[1] not in muts:
                            elts.extend(a[3])
                        else:
                            elts.append(("star", a))
                    self.fold[uid] = tuple(elts)
                elif not self.ex.expand:
                    self._cond_fold(uid, t, lst, evs, muts)
            elif t[2] == "dict":
                g0 = lst[0][0].guards
                ok = all(e.guards == g0 and e.kind == "store_item" for e, _ in lst)
                if ok and not any(g[0][0] == "loop" for g in g0):
                    elts = list(t[3])
                    for e, _ in lst:
                        elts.append(("pair", e.name, e.value))
                    self.fold[uid] = tuple(elts)
        # folded lists that are returned directly keep their elements as content
        rank = {"ret": 4, "yield": 3, "st": 2, "arg": 1}
        for e in evs:
            if e.kind == "return" and len(e.stack) == 1:
                self._flow(e.term, ("ret",), rank)
            elif e.kind == "yield" and len(e.stack) == 1:
                self._flow(e.term, ("yield",), rank)
            elif e.kind == "store_attr":
                self._flow(e.value, ("st", e.name), rank)
            elif e.kind == "store_item":
                self._flow(e.value, ("st", "item"), rank)
            elif e.kind == "call" and e.name not in ("inlined", "get"):
                f = e.term[1]
                if f[0] == "global" and f[1] in COPIERS | {"builtins.enumerate", "builtins.iter", "builtins.reversed", "builtins.len", "builtins.any", "builtins.all"}:
                    continue
                if f[0] == "attr" and f[2] in MUTATORS:
                    for a in e.term[2]:
                        self._flow(a, ("arg", "element"), rank)
                    continue
                for a in e.term[2]:
                    self._flow(a, ("arg", E.callee(e.term)), rank)
                for _, a in e.term[3]:
                    self._flow(a, ("arg", E.callee(e.term)), rank)
        # initial elements of collections that are changed later
        for uid in self.mut:
            if uid in self.fold:
                continue
            t = muts[uid][0][1]
            e = muts[uid][0][0]
            if self.roles.get(uid, ("local",))[0] == "ret":
                continue  # reported with the return
            for y in t[3]:
                self._elem(self.role(uid), y, (), e.loc())

    def _cond_fold(self, uid, t, lst, evs, muts):
        """A list built by appends under conditions, without loops, as one literal."""
        al = [e for e in evs if e.kind == "alloc" and e.term[1] == uid]
        if len(al) != 1:
            return
        g0 = al[0].guards
        elts = list(t[3])
        conds = set()
        for e, _ in lst:
            if e.kind != "call" or e.term[1][2] not in ("append", "extend") or len(e.term[2]) != 1 or e.guards[: len(g0)] != g0 or e.term[1][1][0] != "new":
                return
            g = e.guards[len(g0):]
            if any(x[0][0] in E._PSEUDO or x[0][0] == "found" for x in g):
                return
            a = e.term[2][0]
            if e.term[1][2] == "append":
                new = [a]
            elif a[0] == "new" and a[2] in ("list", "tuple") and a[1] not in muts:
                new = list(a[3])
            else:
                new = [("star", a)]
            if not g:
                elts.extend(new)
                continue
            c = E.mk_bool("and", [x if p else E.mk_not(x) for x, p in g])
            conds.add(c)
            elts.append(("star", ("ite", c, ("new", (), "list", tuple(new)), ("new", (), "list", ()))))
        if len(conds) <= 6:
            self.fold[uid] = tuple(elts)

    def _flow(self, t, role, rank):
        if size(t, 3000) > 3000:
            return
        for x in walk(t):
            if x[0] == "new" and x[1] != ():
                old = self.roles.get(x[1])
                if old is None or rank.get(role[0], 0) > rank.get(old[0], 0) or (rank.get(role[0], 0) == rank.get(old[0], 0) and repr(role) < repr(old)):
                    self.roles[x[1]] = role


def fmt_key(k) -> str:
    h = k[0]
    r = [fmt(x) if isinstance(x, tuple) and x else str(x) for x in k[1:]]
    return f"{h} " + ", ".join(r)


# ---------------------------------------------------------------------- helpers
def _BOOL(t):
    if t[0] in ("ite",):
        return _BOOL(t[2]) and _BOOL(t[3])
    if t[0] in ("and", "or", "not", "isinst", "isnone", "oneof", "in", "eq", "is", "lt", "le", "hasattr", "cmp", "isseq"):
        return True
    if t[0] == "const":
        return isinstance(t[1], bool)
    return E._boolish(t)


def _unloop(f, key):
    """Drop 'X is iterated' where an element of X is mentioned anyway."""
    if f[0] != "&":
        return f
    out = []
    for x in f[1]:
        if x[0] == "A" and x[1][0] == "loop":
            it = x[1][1]
            rest = ("t", key) + tuple(y for z in f[1] if z is not x for y in atoms_of(z) if y[0] != "loop")
            if any(y[0] in ("elem", "valof", "indexof") and y[1] == it for y in walk(rest)):
                continue
        out.append(x)
    return f_and(out)


def _subst(f, env):
    k = f[0]
    if k == "A":
        return env.get(f[1], f)
    if k == "N":
        return f_not(_subst(f[1], env))
    if k == "&":
        return f_and([_subst(x, env) for x in f[1]])
    if k == "|":
        return f_or([_subst(x, env) for x in f[1]])
    if k == "X":
        return ("X", _subst(f[1], env), f[2])
    return f


def _plain(x) -> bool:
    """A value read from a parameter."""
    while x[0] in ("attr", "item", "get", "elem", "valof"):
        x = x[1]
    return x[0] == "p"


def _flat(elts) -> tuple:
    out = []
    for x in elts:
        if x[0] == "star" and x[1][0] == "new" and x[1][1] in ("list", "tuple"):
            out.extend(x[1][2])
        else:
            out.append(x)
    return tuple(out)


def _first_ite(t):
    """First choice inside a term (not inside comprehension bodies)."""
    todo = [(t, 0)]
    n = 0
    while todo:
        x, d = todo.pop()
        n += 1
        if n > 3000:
            return None
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if d and x[0] in ("ite", "or2", "and2"):
                    if x[0] == "or2":
                        return x if False else None
                    if x[0] == "ite":
                        return x
                    return None
                if x[0] in ("comp", "func", "phi", "gen"):
                    continue
            todo.extend((y, d + 1) for y in x[::-1] if isinstance(y, tuple))
    return None


def _replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(_replace(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def E_simplify(t):
    """Re-apply the constructors whose normal form may have become available."""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == "str":
        return E.mk_str(t[1])
    if k == "attr" and t[1][0] == "global":
        return ("global", f"{t[1][1]}.{t[2]}")
    if k == "isnone" and t[1][0] == "const":
        return ("const", t[1][1] is None)
    if k == "oneof" and t[1][0] == "const":
        return ("const", t[1] in t[2])
    if k == "item":
        return E.mk_index(t[1], t[2])
    return t


def _iterable(it):
    while True:
        if it[0] == "call" and it[1][0] == "global" and it[1][1] in COPIERS | {"builtins.enumerate", "builtins.iter", "builtins.reversed"} and it[2]:
            it = it[2][0]
            continue
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
            it = it[1][1]
            continue
        if it[0] == "comp" and it[1] != "dict":
            lp = [g[0][1] for g in it[3] if g[0][0] == "loop"]
            if lp:
                it = lp[0]
                continue
        if it[0] == "call" and it[1] == ("global", "builtins.range") and it[2]:
            ln = E._len_of(it[2][-1])
            if ln is not None:
                it = ln
                continue
        if it[0] == "ite":
            x, y = _iterable(it[2]), _iterable(it[3])
            return E.ite(it[1], x, y)
        return it


def _mentions_elem(p, it):
    base = _iterable(it)
    for x in walk(p):
        if x[0] in ("elem", "valof", "indexof") and _iterable(x[1]) == base:
            return True
    if base[0] in ("comp", "ite", "gen"):
        e = mk_elem(base)
        return E.contains(p, e)
    return False


def _exc_name(x) -> Optional[str]:
    if x[0] == "call":
        f = x[1]
        if f[0] == "attr" and f[2] in ("with_traceback",):
            return _exc_name(f[1])
        if f[0] == "attr" and f[2] == "makeError":
            return "makeError"
        if f[0] == "global":
            return f[1]
    if x[0] == "global":
        return x[1]
    return None


def _told(t, acc):
    """The values that the text of a message is made of."""
    h = t[0]
    if h == "str":
        for x in t[1]:
            _told(x, acc)
    elif h == "ite":
        _told(t[2], acc)
        _told(t[3], acc)
    elif h == "callb":
        for _, x in t[2]:
            _told(x, acc)
    elif h == "call":
        if t[1][0] == "attr":
            _told(t[1][1], acc)
        for x in list(t[2]) + [v for _, v in t[3]]:
            _told(x, acc)
    elif h in ("p", "attr", "item", "elem"):
        acc[t] = None
    elif h == "exc":
        acc[("exc",)] = None


def _within(x, t) -> bool:
    return x == t or isinstance(t, tuple) and any(_within(x, y) for y in t)


def _has_x(f):
    if f[0] == "X":
        return True
    if f[0] == "N":
        return _has_x(f[1])
    if f[0] in ("&", "|"):
        return any(_has_x(x) for x in f[1])
    return False


def _has_unknown(k):
    return any(x[0] in ("unknown", "big") for x in walk(k))
