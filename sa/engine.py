"""Abstract interpreter over Python syntax trees: guarded events in gated form.

For a root function the engine computes, without running anything,

* *events*: calls, raises, stores, yields and returns, each with the abstract
  values (terms) involved and the conditions (guards) under which the statement
  executes - calls of helpers of the analysed package are inlined, so that an
  extracted helper contributes the same events as the code it was extracted from;
* *terms*: values in gated normal form.  Copies through local variables vanish,
  joins after branches become ``ite``, iteration becomes ``elem`` of what is
  iterated whatever the loop form, strings become one concatenation form, and
  conditions are normalised (polarity, orientation, membership, isinstance).

There is no path enumeration and no solver: branches are merged at their joins and
loops are handled with one widening step, so a root costs one walk of its
(inlined) tree.
"""
from __future__ import annotations

import ast
import json
import re
import sys
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Optional

from .index import BUILTINS, Class, Func, Index, Module, dotted

sys.setrecursionlimit(20000)

Term = tuple
NONE: Term = ("const", None)
TRUE: Term = ("const", True)
FALSE: Term = ("const", False)
MAX_SIZE = 20000


@dataclass
class Event:
    kind: str  # call raise return store_attr store_item del yield aug
    term: Term  # call: the call term; raise: exception term; return/yield: value
    guards: tuple  # ((term, bool) ...)
    where: tuple  # (file, line)
    stack: tuple  # names of functions from the root to the place
    base: Optional[Term] = None
    name: Any = None
    value: Optional[Term] = None
    order: int = 0
    node: Any = None

    def loc(self) -> str:
        return f"{self.where[0]}:{self.where[1]}"


def size(t, cap=MAX_SIZE) -> int:
    n = 0
    todo = [t]
    while todo and n <= cap:
        x = todo.pop()
        n += 1
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, frozenset):
            todo.extend(x)
    return n


def walk(t):
    """All sub-terms (tuples whose head is a string tag)."""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo.extend(x[::-1])
        elif isinstance(x, frozenset):
            todo.extend(x)


def contains(t, sub) -> bool:
    if t == sub:
        return True
    return any(x == sub for x in walk(t))


def is_const(t) -> bool:
    return t[0] == "const"


def alternatives(t, limit=64) -> list:
    """Leaf alternatives of ite/phi joins."""
    out = []
    todo = [t]
    while todo and len(out) < limit:
        x = todo.pop()
        if x[0] == "ite":
            todo.append(x[3])
            todo.append(x[2])
        elif x[0] == "phi":
            todo.extend(sorted(x[1], key=repr, reverse=True))
        elif x not in out:
            out.append(x)
    return out


def gated(t, limit=64) -> list:
    """Leaf alternatives with the conditions selecting them."""
    out = []
    todo = [(t, ())]
    while todo and len(out) < limit:
        x, g = todo.pop()
        if x[0] == "ite":
            todo.append((x[3], g + neg_guard(x[1])))
            todo.append((x[2], g + pos_guard(x[1])))
        elif x[0] == "phi":
            for y in sorted(x[1], key=repr, reverse=True):
                todo.append((y, g))
        else:
            out.append((x, g))
    return out


# -- term constructors --------------------------------------------------------
def phi(terms) -> Term:
    s = set()
    for t in terms:
        if t[0] == "phi":
            s |= t[1]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > 12:
        s = set(sorted(s, key=lambda x: (size(x, 50), repr(x)[:200]))[:12])
    return ("phi", frozenset(s))


def ite(c: Term, a: Term, b: Term) -> Term:
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == "not":
        return ite(c[1], b, a)
    return ("ite", c, a, b)


def truthy(t: Term) -> Optional[bool]:
    if t[0] == "const":
        return bool(t[1])
    if t[0] == "new" and t[3] and t[2] in ("list", "tuple", "set"):
        return True
    if t[0] in ("func", "lambda"):
        return True
    if t[0] == "str" and any(p[0] == "const" and p[1] for p in t[1]):
        return True
    return None


def mk_not(t: Term) -> Term:
    if t[0] == "not":
        return t[1]
    if t[0] == "const":
        return ("const", not t[1])
    return ("not", t)


def mk_bool(op: str, parts) -> Term:
    out = []
    for p in parts:
        if p[0] == op:
            items = p[1]
        else:
            items = (p,)
        for q in items:
            tv = truthy(q)
            if op == "and":
                if tv is True:
                    continue
                if tv is False:
                    out.append(FALSE)
                    return FALSE if len(out) == 1 else (op, tuple(dict.fromkeys(out)))
            else:
                if tv is False:
                    continue
                if tv is True:
                    out.append(TRUE)
                    return TRUE
            if q not in out:
                out.append(q)
    if not out:
        return TRUE if op == "and" else FALSE
    if len(out) == 1:
        return out[0]
    if op == "or":
        # x == a or x == b  ->  membership
        eqs: dict = {}
        for q in out:
            m = as_member(q)
            if m is None:
                return (op, tuple(out))
            eqs.setdefault(m[0], set()).update(m[1])
        if len(eqs) == 1:
            x, vals = next(iter(eqs.items()))
            return mk_member(x, vals)
        # isinstance or isinstance
    return (op, tuple(out))


def as_member(t: Term):
    if t[0] == "oneof":
        return t[1], set(t[2])
    return None


def mk_member(x: Term, vals) -> Term:
    return ("oneof", x, frozenset(vals))


def mk_cmp(op: str, a: Term, b: Term) -> Term:
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_cmp("<=", b, a)
    if op in ("==", "is"):
        if is_const(a) and not is_const(b):
            a, b = b, a
        if is_const(a) and is_const(b):
            return ("const", a[1] == b[1] if op == "==" else a[1] is b[1])
        if is_const(b):
            if b[1] is None:
                if a[0] in ("str", "new", "func", "lambda", "bin") or a[0] == "global" and _DEFINED(a[1]):
                    return FALSE
                if a[0] == "ite":
                    x, y = mk_cmp(op, a[2], b), mk_cmp(op, a[3], b)
                    if x[0] == "const" or y[0] == "const":
                        return as_cond(ite(a[1], x, y))
                return ("isnone", a)
            if isinstance(b[1], bool):
                if op == "is":
                    return ("is", a, b)
            ln = _len_of(a)
            if ln is not None and b[1] == 0:
                return mk_not(ln)
            if b[1] == -1 and _find_of(a) is not None:
                return mk_not(_find_of(a))
            return mk_member(a, [b])
        if op == "==" and repr(b) < repr(a):
            a, b = b, a
        return ("eq" if op == "==" else "is", a, b)
    if op == "in":
        if b[0] == "new" and b[2] in ("list", "tuple", "set") and all(e[0] in ("const", "global") for e in b[3]):
            return mk_member(a, b[3])
        if b[0] == "const" and isinstance(b[1], tuple):
            return mk_member(a, [("const", v) for v in b[1]])
        if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys" and not b[2]:
            return ("in", a, b[1][1])
        return ("in", a, b)
    if op in ("<", "<="):
        # x.find(y) >= 0, -1 < x.find(y)
        fo = _find_of(b)
        if fo is not None and is_const(a) and (op, a[1]) in (("<", -1), ("<=", 0)):
            return fo
        fo = _find_of(a)
        if fo is not None and is_const(b) and (op, b[1]) in (("<", 0), ("<=", -1)):
            return mk_not(fo)
        # len(x) > 0, 1 <= len(x)
        ln = _len_of(b)
        if ln is not None and is_const(a) and ((op == "<" and a[1] == 0) or (op == "<=" and a[1] == 1)):
            return ln
        ln = _len_of(a)
        if ln is not None and is_const(b) and ((op == "<" and b[1] == 1) or (op == "<=" and b[1] == 0)):
            return mk_not(ln)
        if is_const(a) and is_const(b):
            try:
                return ("const", a[1] < b[1] if op == "<" else a[1] <= b[1])
            except TypeError:
                pass
        return ("lt" if op == "<" else "le", a, b)
    return ("cmp", op, a, b)


def _len_of(t: Term):
    if t[0] == "call" and t[1] == ("global", "builtins.len") and len(t[2]) == 1:
        return t[2][0]
    return None


def _find_of(t: Term):
    """Condition that s.find(x) finds something."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("find", "rfind") and len(t[2]) == 1 and not t[3]:
        return ("in", t[2][0], t[1][1])
    return None


def mk_str(parts) -> Term:
    out = []
    for p in parts:
        if p[0] == "str":
            items = p[1]
        else:
            items = (p,)
        for q in items:
            if q[0] == "const" and not isinstance(q[1], str):
                q = ("const", str(q[1]))
            if q[0] == "const" and out and out[-1][0] == "const":
                out[-1] = ("const", out[-1][1] + q[1])
            else:
                out.append(q)
    out = [q for q in out if q != ("const", "")]
    if not out:
        return ("const", "")
    if len(out) == 1 and out[0][0] == "const":
        return out[0]
    return ("str", tuple(out))


def is_strish(t: Term) -> bool:
    return t[0] == "str" or (t[0] == "const" and isinstance(t[1], str))


def mk_elem(t: Term) -> Term:
    while True:
        if t[0] == "call" and t[1][0] == "global" and t[1][1] in (
            "builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.set",
            "builtins.reversed", "builtins.frozenset",
        ) and len(t[2]) >= 1:
            t = t[2][0]
            continue
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "keys" and not t[2]:
            t = t[1][1]
            continue
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "values" and not t[2]:
            return ("valof", t[1][1])
        break
    if t[0] == "call" and t[1] == ("global", "builtins.range") and len(t[2]) == 1 and _len_of(t[2][0]) is not None:
        return ("indexof", _len_of(t[2][0]))
    if t[0] == "comp" and t[1] != "dict":
        return t[2]
    if t[0] == "comp" and t[1] == "dict":
        return t[2][1] if t[2][0] == "pair" else t[2]
    if t[0] == "gen":
        return phi(t[2]) if t[2] else ("unknown", "empty")
    if t[0] == "ite":
        return ite(t[1], mk_elem(t[2]), mk_elem(t[3]))
    if t[0] == "new" and t[1] == () and t[2] == "tuple" and t[3] and any(x[0] == "star" for x in t[3]):
        return phi([mk_elem(x[1]) if x[0] == "star" else x for x in t[3]])
    return ("elem", t)


def is_empty(t: Term) -> bool:
    return t[0] == "new" and not t[3] or t == ("const", "") or t == ("const", ())


def split_iter(it: Term):
    """(guards, iterable): iterating ``X if c else []`` is iterating X under c."""
    guards: tuple = ()
    for _ in range(6):
        if it[0] == "or2" and is_empty(it[2]):
            guards += pos_guard(as_cond(it[1]))
            it = it[1]
        elif it[0] == "ite" and is_empty(it[3]):
            guards += pos_guard(it[1])
            it = it[2]
        elif it[0] == "ite" and is_empty(it[2]):
            guards += neg_guard(it[1])
            it = it[3]
        elif it[0] == "call" and it[1][0] == "global" and it[1][1] in _WRAP and len(it[2]) == 1:
            g, x = split_iter(it[2][0])
            return guards + g, (it[:2] + ((x,),) + it[3:] if g else it)
        elif it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
            g, x = split_iter(it[1][1])
            return guards + g, (("call", ("attr", x, it[1][2])) + it[2:] if g else it)
        else:
            break
    return guards, it


def _DEFINED(q: str) -> bool:
    """Does the name stand for a function, class or module of the package?"""
    return False


def _forward(it: Term) -> Term:
    """x[::-1] is gone through like reversed(x)."""
    if it[0] == "slice" and it[2:] == (NONE, NONE, ("const", -1)):
        return ("call", ("global", "builtins.reversed"), (it[1],), ())
    return it


def _is_reversed(it: Term) -> bool:
    n = 0
    while it[0] == "call" and it[1][0] == "global" and it[1][1] in _WRAP and it[2]:
        n += it[1][1] == "builtins.reversed"
        it = it[2][0]
    return n % 2 == 1


_WRAP = {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.set", "builtins.reversed", "builtins.frozenset", "builtins.enumerate"}


def present(guards, b: Term, k: Term) -> bool:
    """Do the conditions say that mapping b has the key k?"""
    for t, pol in guards:
        if t[0] == "in" and pol and t[1] == k and t[2] == b:
            return True
        g = t if t[0] == "get" else (t[1] if t[0] in ("isinst", "isnone", "oneof") else None)
        if g and g[0] == "get" and g[1] == b and g[2] == k and g[3] == NONE:
            if t[0] == "isnone":
                if not pol:
                    return True
            elif pol and (t[0] != "oneof" or NONE not in t[2]):
                return True
    return False


def first_of(t: Term) -> Optional[Term]:
    """First element of list(X), iter(X) ..."""
    n = 0
    while t[0] == "call" and t[1][0] == "global" and t[1][1] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(t[2]) == 1:
        t = t[2][0]
        n += 1
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "keys" and not t[2]:
        t = t[1][1]
        n += 1
    elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("values", "items") and not t[2]:
        n += 1
    return ("first", t) if n else None


def _has_elem(t) -> bool:
    return isinstance(t, tuple) and (bool(t) and t[0] in ("elem", "valof", "indexof") or any(_has_elem(x) for x in t))


def mk_index(base: Term, key: Term, idx: "Engine" = None) -> Term:
    if key == ("const", 0):
        f = first_of(base)
        if f is not None:
            return f
    if base[0] == "first" and base[1][0] == "call" and base[1][1][0] == "attr" and base[1][1][2] == "items":
        if key == ("const", 0):
            return ("first", base[1][1][1])
        if key == ("const", 1):
            return ("first", ("call", ("attr", base[1][1][1], "values"), (), ()))
    if is_const(base) and isinstance(base[1], str) and is_const(key) and type(key[1]) is int and -len(base[1]) <= key[1] < len(base[1]):
        return ("const", base[1][key[1]])
    # the first and the last part of a text: however many parts it is cut into
    if base[0] == "call" and base[1][0] == "attr" and base[1][2] in ("split", "rsplit", "partition", "rpartition") and not base[3] and is_const(key) and type(key[1]) is int:
        m, xs, k = base[1][2], base[2], key[1]
        cuts = len(xs) == 2 and is_const(xs[1]) and type(xs[1][1]) is int and xs[1][1] >= 1
        plain = ("call", ("attr", base[1][1], "split"), (xs[0],), ()) if xs else base
        if k == 0 and (m == "partition" and len(xs) == 1 or m == "split" and cuts):
            return ("item", plain, ("const", 0))
        if k == -1 and m == "rsplit" and cuts or k in (-1, 2) and m == "rpartition" and len(xs) == 1:
            return ("item", plain, ("const", -1))
    # unpacking of iterated pairs
    if base[0] == "elem":
        it = base[1]
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" and not it[2]:
            if key == ("const", 0):
                return mk_elem(it[1][1])
            if key == ("const", 1):
                return ("valof", it[1][1])
        if it[0] == "call" and it[1] == ("global", "builtins.enumerate"):
            if key == ("const", 0):
                return ("indexof", it[2][0])
            if key == ("const", 1):
                return mk_elem(it[2][0])
        if it[0] == "call" and it[1][0] == "global" and it[1][1] in ("builtins.zip", "itertools.zip_longest"):
            if is_const(key) and isinstance(key[1], int) and key[1] < len(it[2]):
                return mk_elem(it[2][key[1]])
    if base[0] == "new" and base[2] in ("tuple", "list") and is_const(key) and isinstance(key[1], int):
        if -len(base[3]) <= key[1] < len(base[3]) and not any(e[0] == "star" for e in base[3]) and base[2] == "tuple":
            return base[3][key[1]]
    if base[0] == "pair" and is_const(key) and key[1] in (0, 1):
        return base[1 + key[1]]
    # m.groups()[0] is m.group(1)
    if base[0] == "call" and base[1][0] == "attr" and base[1][2] == "groups" and not base[2] and not base[3] and is_const(key) and isinstance(key[1], int) and key[1] >= 0:
        return ("call", ("attr", base[1][1], "group"), (("const", key[1] + 1),), ())
    # X[i] for i in range(len(X)) / enumerate index
    if key == ("indexof", base):
        return mk_elem(base)
    if key[0] == "elem" and key[1][0] == "call" and key[1][1] == ("global", "builtins.range"):
        rg = key[1][2]
        if rg and _len_of(rg[-1] if len(rg) <= 2 else rg[1]) == base:
            return mk_elem(base)
    if key == ("elem", base):
        return ("valof", base)
    if base[0] == "phi" and all(x[0] == "new" and x[2] == "tuple" for x in base[1]):
        return phi([mk_index(x, key) for x in base[1]])
    if base[0] == "ite" and size(base, 80) < 80:
        return ite(base[1], mk_index(base[2], key), mk_index(base[3], key))
    return ("item", base, key)


def neg_guard(c: Term) -> tuple:
    c = as_cond(c)
    if c[0] == "not":
        return pos_guard(c[1])
    if c[0] == "or":
        out = ()
        for x in c[1]:
            out += neg_guard(x)
        return out
    if c == FALSE:
        return ()
    return ((c, False),)


def pos_guard(c: Term) -> tuple:
    c = as_cond(c)
    if c[0] == "not":
        return neg_guard(c[1])
    if c[0] == "and":
        out = ()
        for x in c[1]:
            out += pos_guard(x)
        return out
    if c == TRUE:
        return ()
    return ((c, True),)


def as_cond(t: Term) -> Term:
    """Normalise a term used as a condition."""
    if t[0] == "call" and t[1] == ("global", "builtins.bool") and len(t[2]) == 1:
        return as_cond(t[2][0])
    ln = _len_of(t)
    if ln is not None:
        return ln
    if t[0] == "ite":
        c, a, b = as_cond(t[1]), as_cond(t[2]), as_cond(t[3])
        ta, tb = truthy(a), truthy(b)
        if ta is True and tb is False:
            return c
        if ta is False and tb is True:
            return mk_not(c)
        if ta is True:
            return mk_bool("or", [c, b])
        if tb is False:
            return mk_bool("and", [c, a])
        if ta is False:
            return mk_bool("and", [mk_not(c), b])
        if tb is True:
            return mk_bool("or", [mk_not(c), a])
        return ("ite", c, a, b)
    if t[0] == "not":
        return mk_not(as_cond(t[1]))
    if t[0] in ("and", "or"):
        return mk_bool(t[0], [as_cond(x) for x in t[1]])
    if t[0] in ("and2", "or2"):
        return mk_bool(t[0][:-1], [as_cond(t[1]), as_cond(t[2])])
    return t


# -- state ---------------------------------------------------------------------
class State:
    __slots__ = ("env", "guards")

    def __init__(self, env, guards):
        self.env = env
        self.guards = guards

    def copy(self):
        return State(dict(self.env), self.guards)


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "popitem", "add", "discard", "appendleft", "extendleft", "sort", "reverse"}


def _unset(k):
    """What a place holds on the path that did not store to it."""
    return k[:2] if k[0] == "global" else ("attr", k[1], k[2])


def _stable(fr, node) -> bool:
    """The expression is not a variable whose object the function changes in place."""
    if isinstance(node, ast.Starred):
        node = node.value
    while fr is not None:
        if isinstance(node, ast.Name) and node.id in fr.mutated:
            return False
        fr = fr.outer
    return True


class Frame:
    def __init__(self, func: Func, module: Module, outer: Optional["Frame"], outer_state: Optional[State], cls: Optional[Class], stack: tuple, site: tuple):
        self.func = func
        self.module = module
        self.outer = outer
        self.outer_state = outer_state
        self.cls = cls
        self.stack = stack
        self.site = site
        self.returns: list = []  # (guards, term)
        self.yields: list = []
        self.loops: list = []  # per loop: (break states, continue states)
        self.nonlocals: set = set()
        self.globals: set = set()
        self.locals: set = set()
        self.mutated: set = set()  # local names whose object is changed after its creation
        self.selfname: Optional[str] = None
        self.nbase = 0  # conditions that hold where the function is called


class Budget(Exception):
    pass


class Engine:
    def __init__(
        self,
        index: Index,
        inline: Optional[Callable[[str], bool]] = None,
        max_depth: int = 5,
        max_events: int = 60000,
        fold_consts: bool = True,
        exact: bool = False,
    ):
        global _DEFINED
        self.ix = index
        _DEFINED = lambda q: isinstance(index.lookup(q), (Func, Class))  # noqa: E731
        self.inline_ok = inline or (lambda q: True)
        self.max_depth = max_depth
        self.max_events = max_events
        self.fold = fold_consts
        self.exact = exact  # keep disjunctive guards at joins, ignore asserts, name no locals
        self.closures: dict = {}
        self.events: list[Event] = []
        self.recording = True
        self.inlined: set = set()
        self.notes: list = []
        self.rounds: dict = {}
        self._const_cache: dict = {}
        self._const_busy: set = set()
        self._lazy = False
        self.types: dict = {}  # param name -> Class for method resolution

    # -- public ---------------------------------------------------------------
    def run(self, func: Func, args: Optional[dict] = None) -> "Result":
        self.events = []
        self.closures = {}
        self.inlined = set()
        self.recording = True
        cls = func.cls
        fr = Frame(func, func.module, None, None, cls, (func.qual,), ())
        env: dict = {}
        a = func.node.args
        names = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg)
        if a.kwarg:
            names.append(a.kwarg)
        self.types = {}
        for i, x in enumerate(names):
            env[x.arg] = (args or {}).get(x.arg, ("param", x.arg))
            if x.annotation is not None:
                k = self._ann_class(func.module, x.annotation)
                if k is not None:
                    self.types[env[x.arg]] = k
        if cls is not None and not func.static and names:
            fr.selfname = names[0].arg
            self.types[env[names[0].arg]] = cls
        st = State(env, ())
        self._scan_locals(fr, func.node)
        out = self._block(func.node.body, st, fr)
        if out is not None:
            fr.returns.append((out.guards, NONE))
        res = Result(self, func, list(self.events), list(fr.returns), list(fr.yields), out)
        return res

    def module_consts(self, module: Module, name: str) -> Term:
        return self._const(module, name)

    def eval_in_module(self, module: Module, node) -> Term:
        fake = Func(f"{module.name}.<const>", module, ast.parse("def _f(): pass").body[0])
        fr = Frame(fake, module, None, None, None, (), ())
        old = self.recording
        self.recording = False
        try:
            return self._expr(node, State({}, ()), fr)
        finally:
            self.recording = old

    # -- helpers --------------------------------------------------------------
    def _ann_class(self, module, ann) -> Optional[Class]:
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            ks = [self._ann_class(module, x) for x in (ann.left, ann.right)]
            ks = [k for k in ks if k is not None]
            return ks[0] if len(ks) == 1 else None
        if isinstance(ann, ast.Subscript) and dotted(ann.value) in ("Optional", "typing.Optional", "type", "Type"):
            return self._ann_class(module, ann.slice)
        d = dotted(ann)
        if not d:
            return None
        q = self.ix.resolve(module, d)
        k = self.ix.lookup(q) if q else None
        return k if isinstance(k, Class) else None

    def _scan_locals(self, fr: Frame, node):
        todo = list(node.body) if isinstance(node.body, list) else []
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            fr.locals.add(x.arg)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
            elif isinstance(n, ast.Global):
                fr.globals.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                fr.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                fr.locals.add(n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in MUTATORS:
                fr.mutated.add(n.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and not isinstance(n.ctx, ast.Load):
                fr.mutated.add(n.value.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                fr.mutated.add(n.target.id)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                fr.locals.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        fr.locals -= fr.nonlocals | fr.globals

    def _emit(self, kind, term, st: State, fr: Frame, node, **kw):
        if not self.recording:
            return
        if len(self.events) >= self.max_events:
            raise Budget()
        self.events.append(
            Event(kind, term, st.guards, (fr.module.rel(), getattr(node, "lineno", 0)), fr.stack, order=len(self.events), node=node, **kw)
        )

    def _cap(self, t: Term) -> Term:
        if size(t, MAX_SIZE) > MAX_SIZE:
            return ("big", t[0])
        return t

    def _const(self, module: Module, name: str) -> Optional[Term]:
        key = (module.name, name)
        if key in self._const_cache:
            return self._const_cache[key]
        if key in self._const_busy or module.multi.get(name, 1) != 1:
            return None
        node = module.consts.get(name)
        if node is None:
            return None
        self._const_busy.add(key)
        try:
            v = self._literal(module, node)
        finally:
            self._const_busy.discard(key)
        self._const_cache[key] = v
        return v

    def _literal(self, module, node) -> Optional[Term]:
        """Value of a module-level constant expression that is a literal, else None."""
        if isinstance(node, ast.Constant):
            return ("const", node.value)
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            elts = []
            for e in node.elts:
                v = self._literal(module, e)
                if v is None:
                    return None
                elts.append(v)
            kind = {"Tuple": "tuple", "List": "list", "Set": "set"}[type(node).__name__]
            return ("new", (), kind, tuple(elts))
        if isinstance(node, ast.BinOp):
            a, b = self._literal(module, node.left), self._literal(module, node.right)
            if a and b and a[0] == b[0] == "const":
                return self._bin(node.op, a, b)
            return None
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            a = self._literal(module, node.operand)
            if a and a[0] == "const" and isinstance(a[1], (int, float)):
                return ("const", -a[1])
            return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = dotted(node)
            q = self.ix.resolve(module, d) if d else None
            if not q:
                return None
            r = self.ix.lookup(q)
            if isinstance(r, ast.expr):
                m = self.ix.module_of(q)
                return self._const(m, q.rsplit(".", 1)[1])
            if isinstance(r, (Class, Func)):
                return ("global", q)
            return None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("frozenset", "set", "tuple", "list") and len(node.args) == 1:
            v = self._literal(module, node.args[0])
            return v
        return None

    # -- statements -----------------------------------------------------------
    def _block(self, stmts, st: State, fr: Frame) -> Optional[State]:
        for s in stmts:
            st = self._stmt(s, st, fr)
            if st is None:
                return None
        return st

    def _stmt(self, s, st: State, fr: Frame) -> Optional[State]:
        m = getattr(self, "_s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st, fr)

    def _s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        t = self._expr(s.value, st, fr)
        # NoReturn calls
        if t[0] == "call" and t[1] in (("global", "sys.exit"), ("global", "builtins.exit"), ("global", "os._exit")):
            return None
        if t == ("noreturn",):
            return None
        return st

    def _s_Assign(self, s, st, fr):
        v = self._expr(s.value, st, fr)
        if v == ("noreturn",):
            return None
        for t in s.targets:
            self._assign(t, v, st, fr, s)
        return st

    def _s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self._expr(s.value, st, fr)
            if v == ("noreturn",):
                return None
            self._assign(s.target, v, st, fr, s)
        return st

    def _s_AugAssign(self, s, st, fr):
        old = self._expr(_load(s.target), st, fr)
        v = self._expr(s.value, st, fr)
        if old[0] == "new" or (isinstance(s.op, ast.Add) and v[0] == "new") or (old[0] in ("ite", "phi") and isinstance(s.op, (ast.Add, ast.BitOr)) and all(x[0] == "new" for x in alternatives(old))):
            name = "extend" if isinstance(s.op, ast.Add) else "update"
            self._emit("call", ("call", ("attr", old, name), (v,), ()), st, fr, s)
            if old[0] == "new" or v[0] == "new" and v[2] == "list" or all(x[0] == "new" for x in alternatives(old)):
                return st
        new = self._cap(self._bin(s.op, old, v))
        self._assign(s.target, new, st, fr, s)
        return st

    def _assign(self, t, v, st: State, fr: Frame, node):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals and fr.outer_state is not None:
                o, f = fr.outer_state, fr.outer
                while t.id not in o.env and f is not None and f.outer_state is not None:
                    o, f = f.outer_state, f.outer
                o.env[t.id] = v if not st.guards[len(o.guards):] else phi([v, o.env.get(t.id, v)])
                return
            if t.id in fr.globals:
                self._emit("store_global", v, st, fr, node, base=("global", f"{fr.module.name}.{t.id}"), name=t.id, value=v)
                st.env[("global", f"{fr.module.name}.{t.id}", "")] = v
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self._assign(e.value, ("rest", v, ("const", i)), st, fr, node)
                else:
                    self._assign(e, mk_index(v, ("const", i)), st, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self._expr(t.value, st, fr)
            self._emit("store_attr", v, st, fr, node, base=b, name=t.attr, value=v)
            if b[0] != "phi":
                self._kill(st, ("attr", b, t.attr))
                st.env[("attr", b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self._expr(t.value, st, fr)
            k = self._expr(t.slice, st, fr)
            self._emit("store_item", v, st, fr, node, base=b, name=k, value=v)

    def _kill(self, st, key):
        for k in [k for k in st.env if isinstance(k, tuple) and k[0] == "attr" and k[2] == key[2]]:
            del st.env[k]

    def _s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self._expr(t.value, st, fr)
                k = self._expr(t.slice, st, fr)
                self._emit("del", b, st, fr, s, base=b, name=k)
            elif isinstance(t, ast.Attribute):
                b = self._expr(t.value, st, fr)
                self._emit("del", b, st, fr, s, base=b, name=t.attr)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def _s_Return(self, s, st, fr):
        v = self._expr(s.value, st, fr) if s.value is not None else NONE
        if v == ("noreturn",):
            return None
        self._emit("return", v, st, fr, s, name=fr.nbase)
        fr.returns.append((st.guards, v))
        return None

    def _s_Raise(self, s, st, fr):
        v = self._expr(s.exc, st, fr) if s.exc is not None else ("reraise",)
        c = self._expr(s.cause, st, fr) if s.cause is not None else None
        self._emit("raise", v, st, fr, s, value=c)
        return None

    def _s_Assert(self, s, st, fr):
        c = as_cond(self._expr(s.test, st, fr))
        self._emit("assert", c, st, fr, s)
        if not self.exact:
            st.guards = st.guards + pos_guard(c)
        return st

    def _s_Pass(self, s, st, fr):
        return st

    def _s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = ("global", a.name if a.asname else a.name.split(".")[0])
        return st

    def _s_ImportFrom(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name] = ("global", self.ix.canonical(f"{s.module}.{a.name}"))
        return st

    def _s_Global(self, s, st, fr):
        return st

    _s_Nonlocal = _s_Global

    def _s_FunctionDef(self, s, st, fr):
        uid = (fr.module.name, s.lineno, s.col_offset, fr.site)
        f = Func(f"{fr.func.qual}.<locals>.{s.name}", fr.module, s, None)
        self.closures[uid] = (f, fr, st)
        st.env[s.name] = ("func", uid)
        return st

    def _s_ClassDef(self, s, st, fr):
        st.env[s.name] = ("localclass", s.name)
        return st

    def _s_If(self, s, st, fr):
        c = as_cond(self._expr(s.test, st, fr))
        return self._branch(c, s.body, s.orelse, st, fr)

    def _branch(self, c, body, orelse, st, fr):
        tv = truthy(c) if c[0] == "const" else None
        # infeasible under the current guards?
        for g, pol in st.guards:
            if g == c:
                tv = pol
        if tv is True:
            return self._block(body, st, fr)
        if tv is False:
            return self._block(orelse, st, fr)
        a, b = st.copy(), st.copy()
        a.guards = st.guards + pos_guard(c)
        b.guards = st.guards + neg_guard(c)
        ra = self._block(body, a, fr)
        rb = self._block(orelse, b, fr)
        return self._join(c, st, ra, rb)

    def _join(self, c, pre: State, ra: Optional[State], rb: Optional[State]) -> Optional[State]:
        if ra is None:
            return rb
        if rb is None:
            return ra
        env = {}
        for k in ra.env.keys() | rb.env.keys():
            va, vb = ra.env.get(k), rb.env.get(k)
            if isinstance(k, tuple):
                if va is not None and va == vb:
                    env[k] = va
                elif va is not None and vb is not None:
                    env[k] = self._cap(ite(c, va, vb))
                else:
                    dflt = _unset(k)
                    env[k] = self._cap(ite(c, va if va is not None else dflt, vb if vb is not None else dflt))
                continue
            if va is None or vb is None:
                if va is None:
                    env[k] = self._cap(ite(c, ("undef", k), vb))
                else:
                    env[k] = self._cap(ite(c, va, ("undef", k)))
            else:
                env[k] = self._cap(ite(c, va, vb))
        common = []
        for x, y in zip(ra.guards, rb.guards):
            if x == y:
                common.append(x)
            else:
                break
        # guards acquired later in only one branch stay attached to nothing
        if self.exact:
            n = len(common)
            sa = [g for g in ra.guards[n:] if g[0][0] not in _PSEUDO]
            sb = [g for g in rb.guards[n:] if g[0][0] not in _PSEUDO]
            if sa and sb and not (tuple(sa) == pos_guard(c) and tuple(sb) == neg_guard(c)):
                pa = mk_bool("and", [t if p else mk_not(t) for t, p in sa])
                pb = mk_bool("and", [t if p else mk_not(t) for t, p in sb])
                g = ("or", (pa, pb))
                if size(g, 1500) <= 1500:
                    common.append((g, True))
        return State(env, tuple(common))

    def _merge_states(self, states: list, pre_guards) -> Optional[State]:
        states = [s for s in states if s is not None]
        if not states:
            return None
        env = dict(states[0].env)
        for s in states[1:]:
            for k in env.keys() | s.env.keys():
                va, vb = env.get(k), s.env.get(k)
                if va is None or vb is None:
                    if isinstance(k, tuple):
                        d = _unset(k)
                        env[k] = phi([va if va is not None else d, vb if vb is not None else d])
                    else:
                        env[k] = phi([va if va is not None else ("undef", k), vb if vb is not None else ("undef", k)])
                elif va != vb:
                    env[k] = self._cap(phi([va, vb]))
        return State(env, pre_guards)

    def _exits(self, n0: int, nret: int, pre: int, fr: Frame) -> bool:
        """Does something recorded since leave the enclosing loop by return or raise?"""
        if len(fr.returns) > nret:
            return True
        for e in self.events[n0:]:
            if e.kind == "raise" and not any(g[0][0] == "try" for g in e.guards[pre:]):
                return True
        return False

    def _loop(self, header: Callable[[State], Optional[State]], body, orelse, st: State, fr: Frame, exit_guard=None, it=None):
        pre_guards = st.guards
        # pass 1: find loop-carried changes
        rec = self.recording
        self.recording = False
        nret, nyield = len(fr.returns), len(fr.yields)
        fr.loops.append(([], []))
        s1 = st.copy()
        h = header(s1)
        r = self._block(body, h, fr) if h is not None else None
        brk, cont = fr.loops.pop()
        m = self._merge_states([r] + cont, pre_guards)
        del fr.returns[nret:]
        del fr.yields[nyield:]
        self.recording = rec
        entry = st.copy()
        if m is not None:
            for k in list(entry.env.keys() | m.env.keys()):
                va, vb = entry.env.get(k), m.env.get(k)
                if va is None:
                    continue
                if vb is not None and va != vb:
                    entry.env[k] = self._cap(phi([va, self._widen(vb, va, k)]))
            for k, vb in m.env.items():
                if isinstance(k, tuple) and k not in entry.env:
                    d = _unset(k)
                    entry.env[k] = self._cap(phi([d, self._widen(vb, d, k)]))
        # pass 2
        n_ev, n_ret = len(self.events), len(fr.returns)
        fr.loops.append(([], []))
        h = header(entry.copy())
        r = self._block(body, h, fr) if h is not None else None
        brk, cont = fr.loops.pop()
        # no break was taken: all iterations finished (or none happened)
        out = self._merge_states([st.copy(), r] + cont, pre_guards)
        if exit_guard is not None:
            out.guards = out.guards + exit_guard(out)
        if self.exact and it is not None and (self._exits(n_ev, n_ret, len(pre_guards), fr) or (brk and orelse)):
            out.guards = out.guards + ((("found", it), False),)
        if orelse:
            out = self._block(orelse, out, fr)
        if brk:
            outs = ([out] if out is not None else []) + brk
            return self._merge_states(outs, pre_guards)
        return out

    def _widen(self, new, old, k):
        if contains(new, old) and size(new, 200) > size(old, 200) and new[0] not in ("ite", "phi"):
            if is_strish(new) or new[0] in ("bin", "str"):
                if self.exact:
                    return ("loopval", "")
                return ("loopval", str(k) if not isinstance(k, tuple) else k[2])
        return new

    def _s_For(self, s, st, fr):
        it = self._expr(s.iter, st, fr)
        if it == ("noreturn",):
            return None
        lit = _literal_elements(it) if _stable(fr, s.iter) else None
        if lit is not None:
            return self._unroll(s, lit, st, fr)
        return self._for(s, it, s.body, s.orelse, st, fr)

    def _for(self, s, it, body, orelse, st, fr):
        extra, it = split_iter(it)
        it = _forward(it)
        if _is_reversed(it):
            self._emit("backwards", it, st, fr, s)
        if it[0] == "call" and it[1] == ("global", "builtins.range") and it[2] and isinstance(s.target, ast.Name) and not any(
            isinstance(n, ast.Name) and n.id == s.target.id for b in body for n in ast.walk(b)
        ):
            a = it[2][1:] if len(it[2]) == 2 and it[2][0] == ("const", 0) else it[2]
            self._emit("repeat", a[0] if len(a) == 1 else ("tuple",) + tuple(a), st, fr, s)

        def header(state):
            state.guards = state.guards + extra
            if it[0] == "comp" and it[1] != "dict":
                state.guards = state.guards + tuple(it[3])
            else:
                state.guards = state.guards + ((("loop", it), True),)
            self._assign(s.target, mk_elem(it), state, fr, s)
            return state

        return self._loop(header, body, orelse, st, fr, it=it)

    def _unroll(self, s, elts, st: State, fr: Frame):
        """A loop over a literal sequence: one copy of the body per element."""
        pre_guards = st.guards
        brks: list = []
        cur: Optional[State] = st
        for v in elts:
            if cur is None:
                break
            if v[0] == "star":
                cur = self._part(s, v[1], cur, fr, brks)
                continue
            fr.loops.append(([], []))
            self._assign(s.target, v, cur, fr, s)
            r = self._block(s.body, cur, fr)
            brk, cont = fr.loops.pop()
            brks.extend(brk)
            if cont:
                cur = self._merge_states([r] + cont, pre_guards)
            else:
                cur = r
        if cur is not None and s.orelse:
            cur = self._block(s.orelse, cur, fr)
        if brks:
            return self._merge_states([cur] + brks, pre_guards)
        return cur

    def _part(self, s, it, st: State, fr: Frame, brks: list) -> Optional[State]:
        """The loop body over one part of a concatenation."""
        if it[0] == "new" and it[2] in ("list", "tuple"):
            bare = ast.copy_location(ast.For(s.target, s.iter, s.body, []), s)
            return self._unroll(bare, it[3], st, fr) if it[3] else st
        if it[0] == "ite" and is_empty(it[3]) and it[2][0] == "new" and it[2][2] in ("list", "tuple"):
            a, b = st.copy(), st.copy()
            a.guards = st.guards + pos_guard(it[1])
            b.guards = st.guards + neg_guard(it[1])
            return self._join(it[1], st, self._part(s, it[2], a, fr, brks), b)
        return self._for(s, it, s.body, [], st, fr)

    def _s_While(self, s, st, fr):
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)

        def header(state):
            g = (("while", ("const", s.lineno)), True)
            c = as_cond(self._expr(s.test, state, fr))
            state.guards = state.guards + (((("loop", ("while", c))), True),) + pos_guard(c)
            return state

        if const_true:
            pre_guards = st.guards
            out = self._loop(header, s.body, [], st, fr)
            # only breaks leave a "while True" loop; _loop merged the fall-through too,
            # which over-approximates and is harmless
            has_break = any(isinstance(x, ast.Break) for x in _own_loop_nodes(s.body))
            return out if has_break else None

        def exit_guard(state):
            rec = self.recording
            self.recording = False
            try:
                return neg_guard(as_cond(self._expr(s.test, state, fr)))
            finally:
                self.recording = rec

        has_break = any(isinstance(x, ast.Break) for x in _own_loop_nodes(s.body))
        return self._loop(header, s.body, s.orelse, st, fr, None if has_break else exit_guard)

    def _s_Break(self, s, st, fr):
        self._emit("break", NONE, st, fr, s)
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def _s_Continue(self, s, st, fr):
        self._emit("continue", NONE, st, fr, s)
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def _s_With(self, s, st, fr):
        added = ()
        for item in s.items:
            v = self._expr(item.context_expr, st, fr)
            if item.optional_vars is not None:
                self._assign(item.optional_vars, ("enter", v), st, fr, s)
            added += ((("with", v), True),)
        base = st.guards
        st.guards = st.guards + added
        out = self._block(s.body, st, fr)
        if out is not None:
            extra = tuple(g for g in out.guards[len(base):] if g not in added)
            out.guards = base + extra
        return out

    def _s_Try(self, s, st, fr):
        pre = st.copy()
        base = st.guards
        classes = []
        for h in s.handlers:
            classes.append(self._exc_names(h.type, st, fr))
        uid = (fr.module.name, s.lineno, fr.site)
        tag = (("try", tuple(classes), uid), True)
        body = st.copy()
        body.guards = base + (tag,)
        n0 = len(fr.returns)
        rb = self._block(s.body, body, fr)
        mid = self._merge_states([pre, rb] if rb is not None else [pre, State(dict(body.env), base)], base)
        if rb is not None:
            rb.guards = base + tuple(g for g in rb.guards[len(base):] if g != tag)
            if s.orelse:
                rb = self._block(s.orelse, rb, fr)
        outs = []
        for h, cl in zip(s.handlers, classes):
            hs = mid.copy()
            hs.guards = base + ((("except", cl, uid), True),)
            if h.name:
                hs.env[h.name] = ("exc", cl)
            outs.append(self._block(h.body, hs, fr))
        live = [x for x in [rb] + outs if x is not None]
        if not live:
            if s.finalbody:
                fs = mid.copy()
                fs.guards = base + ((("finally",), True),)
                self._block(s.finalbody, fs, fr)
            return None
        if len(live) == 1:
            out = live[0]
        else:
            # keep guards that all live ways share
            common = []
            for tup in zip(*[x.guards for x in live]):
                if all(t == tup[0] for t in tup):
                    common.append(tup[0])
                else:
                    break
            out = self._merge_states(live, tuple(common))
        if s.finalbody:
            out = self._block(s.finalbody, out, fr)
        return out

    _s_TryStar = _s_Try

    def _exc_names(self, node, st, fr) -> tuple:
        if node is None:
            return ("builtins.BaseException",)
        t = self._expr(node, st, fr)
        elts = t[3] if t[0] == "new" else (t,)
        return tuple(sorted(e[1] if e[0] == "global" else repr(e) for e in elts))

    def _s_Match(self, s, st, fr):
        subj = self._expr(s.subject, st, fr)
        pre = st
        results = []  # (cond, state)
        cur = st.copy()
        dead = False
        for case in s.cases:
            a = cur.copy()
            c = self._pattern(case.pattern, subj, a, fr)
            if case.guard is not None:
                a.guards = cur.guards + pos_guard(c)
                c = mk_bool("and", [c, as_cond(self._expr(case.guard, a, fr))])
            c = as_cond(c)
            known = None
            for g, pol in cur.guards:
                if g == c:
                    known = pol
            if c == FALSE or known is False:
                continue
            a.guards = cur.guards + pos_guard(c)
            r = self._block(case.body, a, fr)
            results.append((c, r))
            if c == TRUE or known is True:
                dead = True
                break
            cur.guards = cur.guards + neg_guard(c)
        out = None if dead else cur
        for c, r in reversed(results):
            if c == TRUE:
                out = r
            else:
                out = self._join(c, pre, r, out)
        return out

    def _pattern(self, p, subj, st: State, fr: Frame) -> Term:
        if isinstance(p, ast.MatchValue):
            return mk_cmp("==", subj, self._expr(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return mk_cmp("is", subj, ("const", p.value))
        if isinstance(p, ast.MatchOr):
            return mk_bool("or", [self._pattern(x, subj, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = self._pattern(p.pattern, subj, st, fr) if p.pattern is not None else TRUE
            if p.name:
                self._assign(ast.Name(id=p.name, ctx=ast.Store()), subj, st, fr, p)
            return c
        if isinstance(p, ast.MatchClass):
            k = self._expr(p.cls, st, fr)
            cs = [self._isinstance(subj, k)]
            for attr, q in zip(p.kwd_attrs, p.kwd_patterns):
                cs.append(self._pattern(q, self._attr(subj, attr, st), st, fr))
            for i, q in enumerate(p.patterns):
                cs.append(self._pattern(q, subj if len(p.patterns) == 1 else ("matchpos", subj, i), st, fr))
            return mk_bool("and", cs)
        if isinstance(p, ast.MatchSequence):
            elts = p.patterns
            cs = []
            if subj[0] == "new" and subj[2] in ("tuple", "list") and len(subj[3]) == len(elts) and not any(isinstance(e, ast.MatchStar) for e in elts):
                pass
            else:
                cs.append(("isseq", subj, len(elts)))
            for i, q in enumerate(elts):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        st.env[q.name] = ("rest", subj, ("const", i))
                    continue
                sub = subj[3][i] if subj[0] == "new" and i < len(subj[3]) else mk_index(subj, ("const", i))
                cs.append(self._pattern(q, sub, st, fr))
            return mk_bool("and", cs)
        if isinstance(p, ast.MatchMapping):
            cs = [self._isinstance(subj, ("global", "collections.abc.Mapping"))]
            for k, q in zip(p.keys, p.patterns):
                kt = self._expr(k, st, fr)
                cs.append(("in", kt, subj))
                cs.append(self._pattern(q, mk_index(subj, kt), st, fr))
            if p.rest:
                st.env[p.rest] = ("rest", subj, NONE)
            return mk_bool("and", cs)
        return ("unknown", "pattern")

    # -- expressions ----------------------------------------------------------
    def _expr(self, e, st: State, fr: Frame) -> Term:
        m = getattr(self, "_e_" + type(e).__name__, None)
        if m is None:
            return ("unknown", type(e).__name__)
        return self._cap(m(e, st, fr))

    def _e_Constant(self, e, st, fr):
        return ("const", e.value)

    def _e_Name(self, e, st, fr):
        n = e.id
        if n in st.env:
            return st.env[n]
        if n in fr.globals:
            v = st.env.get(("global", f"{fr.module.name}.{n}", ""))
            return v if v is not None else ("global", f"{fr.module.name}.{n}")
        if n in fr.locals and n not in fr.nonlocals:
            return ("undef", n)
        o, f = fr.outer_state, fr.outer
        while o is not None:
            if n in o.env:
                return o.env[n]
            if f is None:
                break
            o, f = f.outer_state, f.outer
        q = self.ix.resolve(fr.module, n)
        if q is None:
            return ("free", n)
        return self._global(q)

    def _global(self, q: str) -> Term:
        if self.fold:
            m = self.ix.module_of(q)
            if m is not None and q.startswith(m.name + "."):
                name = q[len(m.name) + 1:]
                if name in m.consts and "." not in name:
                    v = self._const(m, name)
                    if v is not None:
                        return v
        return ("global", q)

    def _attr(self, b: Term, name: str, st: Optional[State] = None) -> Term:
        if b[0] == "global":
            q = self.ix.canonical(f"{b[1]}.{name}")
            return self._global(q)
        if st is not None:
            v = st.env.get(("attr", b, name))
            if v is not None:
                return v
        if b[0] == "ite" and all(x[0] == "global" for x in alternatives(b)):
            return ite(b[1], self._attr(b[2], name, st), self._attr(b[3], name, st))
        return ("attr", b, name)

    def _e_Attribute(self, e, st, fr):
        return self._attr(self._expr(e.value, st, fr), e.attr, st)

    def _e_Subscript(self, e, st, fr):
        b = self._expr(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            parts = tuple(self._expr(x, st, fr) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step))
            return ("slice", b) + parts
        k = self._expr(e.slice, st, fr)
        if b[0] == "global" and b[1].split(".")[0] in ("typing", "collections", "builtins"):
            return b
        if b[0] == "new" and b[2] == "dict" and is_const(k):
            for p in b[3]:
                if p[0] == "pair" and p[1] == k:
                    return p[2]
        r = mk_index(b, k)
        if r[0] == "item" and r[1] == b and is_const(k) and isinstance(k[1], str) and present(st.guards, b, k):
            return ("get", b, k, NONE)
        return r

    def _e_Slice(self, e, st, fr):
        return ("sl",) + tuple(self._expr(x, st, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step))

    def _e_Starred(self, e, st, fr):
        return ("star", self._expr(e.value, st, fr))

    def _seq(self, e, st, fr, kind):
        elts = []
        for x in e.elts:
            v = self._expr(x, st, fr)
            if v[0] == "star" and v[1][0] == "new" and v[1][2] in ("list", "tuple", "set") and _stable(fr, x):
                elts.extend(v[1][3])
            else:
                elts.append(v)
        uid = () if kind == "tuple" else (fr.module.name, e.lineno, e.col_offset, fr.site)
        t = ("new", uid, kind, tuple(elts))
        self._note(uid, st)
        if uid and self.exact:
            self._emit("alloc", t, st, fr, e)
        return t

    def _e_List(self, e, st, fr):
        return self._seq(e, st, fr, "list")

    def _e_Tuple(self, e, st, fr):
        return self._seq(e, st, fr, "tuple")

    def _e_Set(self, e, st, fr):
        return self._seq(e, st, fr, "set")

    def _e_Dict(self, e, st, fr):
        elts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                elts.append(("star", self._expr(v, st, fr)))
            else:
                kt = self._expr(k, st, fr)
                elts.append(("pair", kt, self._expr(v, st, fr)))
        self._note((fr.module.name, e.lineno, e.col_offset, fr.site), st)
        return ("new", (fr.module.name, e.lineno, e.col_offset, fr.site), "dict", tuple(elts))

    def _note(self, uid, st):
        """Is the collection made anew in every round of some loop?"""
        self.rounds[uid] = any(g[0][0] == "loop" for g in st.guards)

    def _e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(("const", v.value))
            elif isinstance(v, ast.FormattedValue):
                t = self._expr(v.value, st, fr)
                if v.conversion == 114:
                    t = ("call", ("global", "builtins.repr"), (t,), ())
                parts.append(t if t[0] != "new" else ("fmt", t))
        return mk_str(parts)

    def _e_UnaryOp(self, e, st, fr):
        v = self._expr(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return mk_not(as_cond(v))
        if isinstance(e.op, ast.USub) and is_const(v) and isinstance(v[1], (int, float)):
            return ("const", -v[1])
        return ("un", type(e.op).__name__, v)

    def _e_BinOp(self, e, st, fr):
        a = self._expr(e.left, st, fr)
        b = self._expr(e.right, st, fr)
        if isinstance(e.op, ast.Add) and any(x[0] == "comp" and x[1] == "list" or x[0] == "call" and x[1] == ("global", "builtins.list") and len(x[2]) == 1 for x in (a, b)):
            elts = []
            for x in (a, b):
                if x[0] == "new" and x[2] == "list":
                    elts.extend(x[3])
                elif x[0] == "call" and x[1] == ("global", "builtins.list") and len(x[2]) == 1:
                    elts.append(("star", x[2][0]))
                else:
                    elts.append(("star", x))
            return ("new", (fr.module.name, e.lineno, e.col_offset, fr.site), "list", tuple(elts))
        return self._bin(e.op, a, b)

    def _bin(self, op, a, b):
        n = type(op).__name__
        if is_const(a) and is_const(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                r = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y,
                     "FloorDiv": lambda x, y: x // y, "Div": lambda x, y: x / y,
                     "Pow": lambda x, y: x ** y if abs(y) < 64 else None, "LShift": lambda x, y: x << y if y < 64 else None}[n](a[1], b[1])
                if r is not None:
                    return ("const", r)
            except (KeyError, ZeroDivisionError, TypeError):
                pass
        if n == "Add" and (is_strish(a) or is_strish(b)):
            return mk_str([a, b])
        if n == "Add" and a[0] == "new" and b[0] == "new" and a[2] == b[2]:
            return ("new", a[1], a[2], a[3] + b[3])
        if n == "Add" and a[0] == "new" and a[2] == "list":
            return ("new", a[1], "list", a[3] + (("star", b),))
        if n == "Add" and b[0] == "new" and b[2] == "list":
            return ("new", b[1], "list", (("star", a),) + b[3])
        if n == "Mod" and is_const(a) and isinstance(a[1], str):
            args = b[3] if b[0] == "new" and b[2] == "tuple" else (b,)
            import re as _re
            pieces = _re.split(r"%[-#0 +]*\d*(?:\.\d+)?[sdrif]", a[1])
            if len(pieces) == len(args) + 1 and "%(" not in a[1]:
                out = []
                for i, p in enumerate(pieces):
                    out.append(("const", p.replace("%%", "%")))
                    if i < len(args):
                        out.append(args[i])
                return mk_str(out)
        return ("bin", n, a, b)

    def _e_BoolOp(self, e, st, fr):
        op = "and" if isinstance(e.op, ast.And) else "or"
        parts = []
        guards = st.guards
        for v in e.values:
            t = self._expr(v, st, fr)
            parts.append(t)
            st.guards = st.guards + (pos_guard(as_cond(t)) if op == "and" else neg_guard(as_cond(t)))
        st.guards = guards
        boolish = all(_boolish(p) for p in parts)
        if boolish:
            return mk_bool(op, [as_cond(p) for p in parts])
        # value semantics
        out = parts[-1]
        for p in reversed(parts[:-1]):
            c = as_cond(p)
            if op == "or":
                out = ("or2", p, out) if truthy(p) is None else (p if truthy(p) else out)
            else:
                out = ("and2", p, out) if truthy(p) is None else (out if truthy(p) else p)
        return _flat_bool(out)

    def _e_Compare(self, e, st, fr):
        left = self._expr(e.left, st, fr)
        parts = []
        for op, c in zip(e.ops, e.comparators):
            right = self._expr(c, st, fr)
            parts.append(mk_cmp(_OPS[type(op).__name__], left, right))
            left = right
        return mk_bool("and", parts) if len(parts) > 1 else parts[0]

    def _e_IfExp(self, e, st, fr):
        c = as_cond(self._expr(e.test, st, fr))
        if c[0] == "const":
            return self._expr(e.body if c[1] else e.orelse, st, fr)
        g = st.guards
        st.guards = g + pos_guard(c)
        a = self._expr(e.body, st, fr)
        st.guards = g + neg_guard(c)
        b = self._expr(e.orelse, st, fr)
        st.guards = g
        return ite(c, a, b)

    def _e_NamedExpr(self, e, st, fr):
        v = self._expr(e.value, st, fr)
        self._assign(e.target, v, st, fr, e)
        return v

    def _e_Lambda(self, e, st, fr):
        uid = (fr.module.name, e.lineno, e.col_offset, fr.site)
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=e.col_offset)], decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        self.closures[uid] = (Func(f"{fr.func.qual}.<lambda>", fr.module, node, None), fr, st)
        return ("func", uid)

    def _comp(self, e, kind, st, fr):
        uid = (fr.module.name, e.lineno, e.col_offset, fr.site)
        base = len(st.guards)
        pieces: list = []
        lazy, self._lazy = self._lazy, False

        def go(i, inner):
            if i == len(e.generators):
                if kind == "dict":
                    k = self._expr(e.key, inner, fr)
                    elt = ("pair", k, self._expr(e.value, inner, fr))
                else:
                    elt = self._expr(e.elt, inner, fr)
                pieces.append((elt, inner.guards[base:]))
                # walrus targets leak
                for n in ast.walk(e):
                    if isinstance(n, ast.NamedExpr) and n.target.id in inner.env:
                        st.env[n.target.id] = inner.env[n.target.id]
                return
            g = e.generators[i]
            it = self._expr(g.iter, inner, fr)
            lit = _literal_elements(it, 8) if kind in ("list", "gen") and _stable(fr, g.iter) and len(pieces) < 12 else None
            for x in lit if lit is not None else [("star", it)]:
                cur = inner.copy()
                if x[0] == "star":
                    more, x = split_iter(x[1])
                    cur.guards = cur.guards + more
                    x = _forward(x)
                    if _is_reversed(x):
                        self._emit("backwards", x, cur, fr, e)
                    if x[0] == "new" and len(x[3]) == 1 and x[2] == "tuple" and x[1] == () and x[3][0][0] != "star":
                        v = x[3][0]
                    elif x[0] == "comp" and x[1] != "dict":
                        cur.guards = cur.guards + tuple(x[3])
                        v = mk_elem(x)
                    else:
                        cur.guards = cur.guards + ((("loop", x), True),)
                        v = mk_elem(x)
                else:
                    v = x
                self._assign(g.target, v, cur, fr, e)
                for c in g.ifs:
                    cur.guards = cur.guards + pos_guard(as_cond(self._expr(c, cur, fr)))
                go(i + 1, cur)
                if lazy and self.exact and i == 0 and lit is not None and x is not v:
                    inner.guards = inner.guards + ((("found", x), False),)

        go(0, st.copy())
        if lazy:
            pieces = [(t, tuple(x for x in g if x[0][0] != "found")) for t, g in pieces]
        if len(pieces) == 1 and (any(x[0][0] == "loop" for x in pieces[0][1]) or kind not in ("list", "gen")):
            return ("comp", kind, pieces[0][0], pieces[0][1], uid)
        out = []
        for elt, g in pieces:
            if any(x[0][0] == "loop" for x in g):
                out.append(("star", ("comp", "gen", elt, g, uid)))
            elif g:
                c = mk_bool("and", [t if p else mk_not(t) for t, p in g])
                if c == FALSE:
                    continue
                out.append(("star", ("ite", c, ("new", (), "tuple", (elt,)), ("new", (), "tuple", ()))))
            else:
                out.append(elt)
        if kind == "gen":
            return ("new", (), "tuple", tuple(out))
        return ("new", uid, "list", tuple(out))

    def _e_ListComp(self, e, st, fr):
        return self._comp(e, "list", st, fr)

    def _e_SetComp(self, e, st, fr):
        return self._comp(e, "set", st, fr)

    def _e_GeneratorExp(self, e, st, fr):
        return self._comp(e, "gen", st, fr)

    def _e_DictComp(self, e, st, fr):
        return self._comp(e, "dict", st, fr)

    def _e_Yield(self, e, st, fr):
        v = self._expr(e.value, st, fr) if e.value is not None else NONE
        self._emit("yield", v, st, fr, e)
        fr.yields.append(v)
        return ("unknown", "sent")

    def _e_YieldFrom(self, e, st, fr):
        it = self._expr(e.value, st, fr)
        todo = [it]
        if it[0] == "new" and it[2] in ("tuple", "list"):
            todo = [x[1] if x[0] == "star" else ("new", (), "tuple", (x,)) for x in it[3]]
        for it in todo:
            base = st.guards
            more, it = split_iter(it)
            st.guards = base + more
            if it[0] == "comp" and it[1] != "dict":
                st.guards = st.guards + tuple(it[3])
            v = mk_elem(it) if not (it[0] == "new" and it[2] == "tuple" and len(it[3]) == 1) else it[3][0]
            self._emit("yield", v, st, fr, e, name="from", value=it)
            fr.yields.append(v)
            st.guards = base
        return ("unknown", "sent")

    def _e_Await(self, e, st, fr):
        return self._expr(e.value, st, fr)

    # -- calls ----------------------------------------------------------------
    def _isinstance(self, x: Term, k: Term) -> Term:
        names = set()
        todo = [k]
        ok = True
        while todo:
            t = todo.pop()
            if t[0] == "new":
                todo.extend(t[3])
            elif t[0] == "bin" and t[1] == "BitOr":
                todo.extend([t[2], t[3]])
            elif t[0] == "global":
                r = self.ix.lookup(t[1])
                if isinstance(r, ast.expr) and not isinstance(r, ast.Call):
                    m = self.ix.module_of(t[1])
                    todo.append(self.eval_in_module(m, r))
                else:
                    names.add(t[1])
            elif t[0] == "call" and t[1] == ("global", "builtins.type") and len(t[2]) == 1 and is_const(t[2][0]):
                names.add(f"builtins.{type(t[2][0][1]).__name__}")
            else:
                ok = False
                names.add(repr(_strip(t)))
        return ("isinst", x, frozenset(names))

    def _e_Call(self, e, st, fr):
        f = e.func
        # evaluate callee and arguments
        ft = self._expr(f, st, fr)
        args = []
        for a in e.args:
            self._lazy = isinstance(a, ast.GeneratorExp) and ft in (("global", "builtins.any"), ("global", "builtins.all"), ("global", "builtins.next"))
            v = self._expr(a, st, fr)
            self._lazy = False
            if v[0] == "star" and v[1][0] == "new" and v[1][2] in ("list", "tuple") and _stable(fr, a):
                args.extend(v[1][3])
            else:
                args.append(v)
        kws = []
        for k in e.keywords:
            v = self._expr(k.value, st, fr)
            if k.arg is None and v[0] == "new" and v[2] == "dict" and _stable(fr, k.value) and all(p[0] == "pair" and is_const(p[1]) for p in v[3]):
                kws.extend((p[1][1], p[2]) for p in v[3])
            else:
                kws.append((k.arg, v))
        if any(a == ("noreturn",) for a in args):
            return ("noreturn",)
        return self._call(ft, args, kws, st, fr, e)

    def _call(self, ft, args, kws, st, fr, e):
        if ft[0] == "ite":
            # call through a joined callee: each alternative under its condition
            g = st.guards
            outs = []
            st.guards = g + pos_guard(ft[1])
            a = self._call(ft[2], args, kws, st, fr, e)
            st.guards = g + neg_guard(ft[1])
            b = self._call(ft[3], args, kws, st, fr, e)
            st.guards = g
            if a == ("noreturn",):
                return b
            if b == ("noreturn",):
                return a
            return ite(ft[1], a, b)
        ft, args, kws = canonical_call(ft, args, kws)
        joined = _joined_path(ft, args, kws)
        if joined is not None:
            return joined
        simp = self._simplify_call(ft, args, kws, st, fr, e)
        if simp is not None:
            return simp
        if ft[0] == "call" and ft[1] == ("global", "functools.partial") and ft[2]:
            return self._call(ft[2][0], list(ft[2][1:]) + args, list(ft[3]) + kws, st, fr, e)
        term = ("call", ft, tuple(args), tuple(sorted(kws, key=lambda kv: str(kv[0]))))
        target = self._target(ft, fr)
        if target is not None:
            func, selfterm, outer = target
            if ft[0] == "attr" and (func.static or func.clsmethod):
                ft = ("global", func.qual)
                term = ("call", ft) + term[2:]
            if self._may_inline(func, fr):
                self._emit("call", term, st, fr, e, name="inlined")
                r = self._inline(func, selfterm, outer, args, kws, st, fr, e)
                if r is not None:
                    return r
                return term
        self._emit("call", term, st, fr, e)
        # callbacks handed to code we do not see
        for a in list(args) + [v for _, v in kws]:
            self._callback(a, ft, st, fr, e)
        return term

    def _callback(self, a, ft, st, fr, e):
        t = self._target(a, fr) if a[0] in ("func", "attr") or a[0] == "global" and isinstance(self.ix.lookup(a[1]), Func) else None
        if t is None:
            return
        func, selfterm, outer = t
        if not self._may_inline(func, fr):
            return
        g = st.guards
        st.guards = g + ((("callback", ft), True),)
        ps = func.params()
        if func.cls is not None and not func.static and selfterm is not None:
            ps = ps[1:]
        self._inline(func, selfterm, outer, [("cbarg", p if not self.exact else i) for i, p in enumerate(ps)], [], st, fr, e)
        st.guards = g

    def _target(self, ft, fr):
        """(Func, self term, closure) for a callee that has a visible body."""
        if ft[0] == "func":
            c = self.closures.get(ft[1])
            if c is None:
                return None
            return c[0], None, (c[1], c[2])
        if ft[0] == "global":
            d = self.ix.lookup(ft[1])
            if isinstance(d, Func):
                if d.cls is not None and not d.static and not d.clsmethod:
                    return d, None, None  # Class.method(self, ...)
                if d.clsmethod:
                    return d, ("global", d.cls.qual), None
                return d, None, None
            return None
        if ft[0] == "attr":
            b = ft[1]
            k = self._class_of(b)
            if k is not None:
                m = self.ix.find_method(k, ft[2])
                if m is not None:
                    if m.static:
                        return m, None, None
                    return m, b, None
            if b[0] == "call" and b[1] == ("global", "builtins.super") and fr.cls is not None:
                for k in self.ix.mro(fr.cls)[1:]:
                    if ft[2] in k.methods:
                        return k.methods[ft[2]], ("param", fr.selfname or "self"), None
        return None

    def _class_of(self, t) -> Optional[Class]:
        if t in self.types:
            return self.types[t]
        if t[0] == "call" and t[1][0] == "global":
            d = self.ix.lookup(t[1][1])
            if isinstance(d, Class):
                return d
        if t[0] == "enter":
            return self._class_of(t[1])
        return None

    def _may_inline(self, func: Func, fr: Frame) -> bool:
        if len(fr.stack) > self.max_depth:
            return False
        if func.qual in fr.stack:
            return False
        if "<locals>" in func.qual or "<lambda>" in func.qual:
            return True
        return self.inline_ok(func.qual)

    def _inline(self, func: Func, selfterm, outer, args, kws, st: State, fr: Frame, e) -> Optional[Term]:
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        env: dict = {}
        params = list(pos)
        actual = list(args)
        if selfterm is not None and func.cls is not None and not func.static and params:
            actual = [selfterm] + actual
        star = None
        i = 0
        rest = []
        for v in actual:
            if v[0] == "star":
                star = v[1]
                continue
            if star is not None:
                continue
            if i < len(params):
                env[params[i]] = v
                i += 1
            else:
                rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = ("new", (), "tuple", tuple(rest)) if star is None else ("star_args", star)
        extra = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        dstar = None
        for k, v in kws:
            if k is None:
                dstar = v
            elif k in names:
                env[k] = v
            else:
                extra.append(("pair", ("const", k), v))
        if a.kwarg:
            env[a.kwarg.arg] = ("new", (), "dict", tuple(extra) + ((("star", dstar),) if dstar is not None else ()))
        fake = Frame(func, func.module, None, None, func.cls, fr.stack, ())
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names:
            if n not in env:
                if star is not None and n in pos:
                    env[n] = ("item", star, ("const", pos.index(n) - i))
                elif dstar is not None:
                    env[n] = mk_index(dstar, ("const", n))
                elif n in defaults:
                    rec = self.recording
                    self.recording = False
                    env[n] = self._expr(defaults[n], State({}, ()), fake)
                    self.recording = rec
                else:
                    env[n] = ("unknown", n)
        for n, v in list(env.items()):
            if n in ann and v not in self.types and v[0] in ("param", "unknown", "cbarg", "elem", "attr", "item"):
                k = self._ann_class(func.module, ann[n])
                if k is not None:
                    self.types[v] = k
        self.inlined.add(func.qual)
        site = fr.site + ((getattr(e, "lineno", 0), getattr(e, "col_offset", 0)),)
        nf = Frame(func, func.module, outer[0] if outer else None, outer[1] if outer else None, func.cls, fr.stack + (func.qual,), site)
        if func.cls is not None and pos and not func.static:
            nf.selfname = pos[0]
        self._scan_locals(nf, func.node)
        # attribute facts known in the caller hold in the callee
        for k, v in st.env.items():
            if isinstance(k, tuple):
                env[k] = v
        ns = State(env, st.guards)
        nf.nbase = len(st.guards)
        n_ev = len(self.events)
        try:
            out = self._block(func.node.body, ns, nf)
        except RecursionError:
            return None
        if func.is_gen:
            parts = self._pieces(self.events[n_ev:], len(st.guards), nf) if self.recording else None
            if parts is not None:
                return parts
            ys = tuple(dict.fromkeys(nf.yields))
            return ("gen", func.qual, ys, term_key(args, kws))
        rets = list(nf.returns)
        if out is not None:
            rets.append((out.guards, NONE))
        if not rets:
            return ("noreturn",)
        # facts about attributes flow back when there is one way out
        base = st.guards
        if len(rets) == 1 and out is not None:
            for k, v in out.env.items():
                if isinstance(k, tuple):
                    st.env[k] = v
            st.guards = out.guards if out.guards[: len(base)] == base else base
        elif len(rets) == 1:
            g = rets[0][0]
            if g[: len(base)] == base:
                st.guards = base + tuple(x for x in g[len(base):] if x[0][0] not in ("loop", "try", "with", "except"))
        else:
            for k in [k for k in st.env if isinstance(k, tuple)]:
                pass
            common = []
            for tup in zip(*[g[len(base):] for g, _ in rets]):
                if all(t == tup[0] for t in tup) and tup[0][0][0] not in ("loop", "try", "with", "except"):
                    common.append(tup[0])
                else:
                    break
            st.guards = base + tuple(common)
            if self.exact and len(rets) <= 12:
                n = len(base) + len(common)
                alts = []
                for g, _ in rets:
                    part = [(t, p) for t, p in g[n:] if t[0] not in _PSEUDO]
                    if not part or any(t[0] == "found" for t, _ in part):
                        alts = []
                        break
                    alts.append(mk_bool("and", [t if p else mk_not(t) for t, p in part]))
                if alts and alts[0] != TRUE:
                    g = ("or", tuple(alts))
                    if size(g, 1500) <= 1500:
                        st.guards = st.guards + ((g, True),)
        return self._cap(self._gate_returns(rets, len(base)))

    def _pieces(self, evs, nbase, nf) -> Optional[Term]:
        """What an inlined generator yields, as a concatenation."""
        out = []
        for e in evs:
            if e.kind == "return" and e.stack == nf.stack:
                return None
            if e.kind != "yield" or e.stack != nf.stack:
                continue
            g = e.guards[nbase:]
            if any(x[0][0] in ("try", "except", "with", "finally", "callback") or x[0][0] == "loop" and x[0][1][0] == "while" for x in g):
                return None
            if e.name == "from" and e.value[0] == "comp":
                out.append(("star", ("comp", "gen", e.term, g, ())))
                continue
            if e.name == "from" and not (e.value[0] == "new" and e.value[2] == "tuple" and len(e.value[3]) == 1):
                v = e.value
                if v[0] == "new" and v[2] in ("tuple", "list"):
                    v = ("star", v)
                elif v[0] == "comp" and v[1] != "dict":
                    out.append(("star", ("comp", "gen", v[2], g + v[3], v[4])))
                    continue
                else:
                    out.append(("star", ("comp", "gen", e.term, g + ((("loop", v), True),), ()) if g else v))
                    continue
                if g:
                    return None
                out.append(v)
                continue
            if not g:
                out.append(e.term)
            elif any(x[0][0] in ("loop", "found") for x in g):
                out.append(("star", ("comp", "gen", e.term, g, ())))
            else:
                c = mk_bool("and", [t if p else mk_not(t) for t, p in g])
                out.append(("star", ("ite", c, ("new", (), "tuple", (e.term,)), ("new", (), "tuple", ()))))
        if len(out) > 12:
            return None
        flat = []
        for x in out:
            if x[0] == "star" and x[1][0] == "new":
                flat.extend(x[1][3])
            else:
                flat.append(x)
        if len(flat) == 1 and flat[0][0] == "star":
            return flat[0][1]
        return ("new", (), "tuple", tuple(flat))

    def _gate_returns(self, rets, nbase) -> Term:
        """Combine (guards, value) returns into nested ite where the guards allow it."""
        vals = [v for _, v in rets]
        if all(v == vals[0] for v in vals):
            return vals[0]
        gs = [(tuple(x for x in g[nbase:]), v) for g, v in rets]

        def build(items, depth=0):
            if len(items) == 1:
                return items[0][1]
            vs = [v for _, v in items]
            if all(v == vs[0] for v in vs):
                return vs[0]
            if depth > 12 or not items[0][0]:
                return phi(vs)
            c, pol = items[0][0][0]
            if c[0] in ("loop", "try", "with", "except", "callback", "finally"):
                return phi(vs)
            yes, no = [], []
            for g, v in items:
                if g and g[0][0] == c:
                    (yes if g[0][1] else no).append((g[1:], v))
                elif g and c[0] in ("and", "or") and _implies_neg(g, c, pol):
                    k = _implies_neg(g, c, pol)
                    (no if pol else yes).append((g[k:], v))
                else:
                    (no if pol else yes).append((g, v))
            if not yes or not no:
                return phi(vs)
            return ite(c, build(yes, depth + 1), build(no, depth + 1))

        return build(gs)

    def _simplify_call(self, ft, args, kws, st, fr, e) -> Optional[Term]:
        if ft[0] == "global":
            q = ft[1]
            if q in ("typing.cast",) and len(args) == 2:
                return args[1]
            if q == "builtins.isinstance" and len(args) == 2:
                return self._isinstance(args[0], args[1])
            if q == "builtins.getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str):
                if len(args) == 2:
                    return self._attr(args[0], args[1][1], st)
                return ("getattr", args[0], args[1][1], args[2])
            if q == "builtins.setattr" and len(args) == 3 and is_const(args[1]):
                self._emit("store_attr", args[2], st, fr, e, base=args[0], name=args[1][1], value=args[2])
                return NONE
            if q == "builtins.hasattr" and len(args) == 2 and is_const(args[1]):
                return ("hasattr", args[0], args[1][1])
            if q == "builtins.str" and len(args) == 1 and is_strish(args[0]):
                return args[0]
            if q == "builtins.len" and len(args) == 1 and is_const(args[0]) and isinstance(args[0][1], (str, bytes)):
                return ("const", len(args[0][1]))
            if q in ("builtins.list", "builtins.dict", "builtins.set") and not args:
                kind = q.split(".")[1]
                elts = tuple(("pair", ("const", k), v) if k else ("star", v) for k, v in kws)
                self._note((fr.module.name, e.lineno, e.col_offset, fr.site), st)
                return ("new", (fr.module.name, e.lineno, e.col_offset, fr.site), kind, elts)
            if q in ("builtins.list", "builtins.set", "builtins.tuple") and len(args) == 1:
                if args[0][0] == "comp" and args[0][1] == "gen":
                    return ("comp", q.split(".")[1],) + args[0][2:]
                if args[0][0] == "new" and args[0][2] in ("list", "tuple", "set") and args[0][1] == ():
                    return ("new", (fr.module.name, e.lineno, e.col_offset, fr.site), q.split(".")[1], args[0][3])
            if q in ("builtins.any", "builtins.all") and len(args) == 1:
                return ("call", ft, tuple(args), ())
            if q == "builtins.map" and len(args) == 2:
                v = self._call(args[0], [mk_elem(args[1])], [], st, fr, e)
                return ("comp", "gen", v, ((("loop", args[1]), True),), ())
            if q == "builtins.filter" and len(args) == 2:
                c = self._call(args[0], [mk_elem(args[1])], [], st, fr, e) if args[0] != NONE else mk_elem(args[1])
                return ("comp", "gen", mk_elem(args[1]), ((("loop", args[1]), True),) + pos_guard(as_cond(c)), ())
            if q == "builtins.next" and args and args[0][0] in ("comp",):
                v = mk_elem(args[0])
                return v if len(args) == 1 else ("ite", ("call", ("global", "builtins.any"), (("comp", "gen", TRUE) + args[0][3:],), ()), v, args[1])
            if q == "builtins.next" and len(args) == 1:
                f1 = first_of(args[0])
                if f1 is not None:
                    return f1
        if ft[0] == "attr":
            b, n = ft[1], ft[2]
            if n == "get" and len(args) in (1, 2) and not kws and b[0] not in ("global",):
                d = args[1] if len(args) == 2 else NONE
                if b[0] == "new" and b[2] == "dict" and is_const(args[0]) and all(p[0] == "pair" and is_const(p[1]) for p in b[3]) and b[1] == ():
                    for p in b[3]:
                        if p[1] == args[0]:
                            return p[2]
                    return d
                self._emit("call", ("call", ft, tuple(args), tuple(kws)), st, fr, e, name="get")
                if b[0] == "comp" and b[1] == "dict" and args[0] == mk_elem(b) and all(
                    g[0][0] == "loop" or not _has_elem(g[0]) for g in b[3]
                ):
                    return ("valof", b)
                return ("get", b, args[0], d)
            if n == "format" and is_const(b) and isinstance(b[1], str):
                s = _format(b[1], args, dict((k, v) for k, v in kws if k))
                if s is not None:
                    return s
            if n == "join" and is_const(b) and isinstance(b[1], str) and len(args) == 1 and args[0][0] == "new" and args[0][2] in ("list", "tuple") and not any(x[0] == "star" for x in args[0][3]) and (args[0][1] == () or _stable(fr, e.args[0] if getattr(e, "args", None) else None)):
                parts = []
                for i, x in enumerate(args[0][3]):
                    if i:
                        parts.append(b)
                    parts.append(x)
                return mk_str(parts)
        return None


_SIGNATURES: dict = {}
_METHODS = {
    "dump": ["data", "stream"], "load": ["stream"], "split": ["sep", "maxsplit"], "rsplit": ["sep", "maxsplit"],
    "encode": ["encoding", "errors"], "decode": ["encoding", "errors"], "splitlines": ["keepends"],
    "read_text": ["encoding"], "write_text": ["data", "encoding"], "communicate": ["input", "timeout"], "wait": ["timeout"],
}
_STR_METHODS = {n for n in dir(str) if not n.startswith("_")} - {"maketrans"}


def signature(q: str):
    """(positional parameters, constant defaults) of a function of another package."""
    if not _SIGNATURES:
        _SIGNATURES.update(json.loads((Path(__file__).parent.parent / "ref" / "signatures.json").read_text()))
    return _SIGNATURES.get(q)


_PATHS = {"pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath"}


def _is_path(t) -> bool:
    """Certainly a pathlib path."""
    if t[0] == "call" and not t[3]:
        if t[1][0] == "global":
            return t[1][1] in _PATHS or t[1][1] in ("pathlib.Path.cwd", "pathlib.Path.home")
        return t[1][0] == "attr" and t[1][2] in ("resolve", "absolute", "expanduser", "with_suffix", "with_name", "joinpath") and _is_path(t[1][1])
    if t[0] == "attr":
        return t[2] == "parent" and _is_path(t[1])
    if t[0] == "bin":
        return t[1] == "Div" and _is_path(t[2])
    return t[0] == "ite" and _is_path(t[2]) and _is_path(t[3])


def _joined_path(ft, args, kws):
    """Path(a, b) and Path(a).joinpath(b) are Path(a) / b."""
    if kws or any(a[0] == "star" for a in args):
        return None
    if ft[0] == "global" and ft[1] in _PATHS and args:
        if len(args) == 1:
            return args[0] if _is_path(args[0]) and ft[1] == "pathlib.Path" else None
        out = args[0] if _is_path(args[0]) else ("call", ft, (args[0],), ())
    elif ft[0] == "attr" and ft[2] == "joinpath" and args and _is_path(ft[1]):
        out, args = ft[1], [ft[1]] + list(args)
    else:
        return None
    for a in args[1:]:
        out = ("bin", "Div", out, a)
    return out


def canonical_call(ft, args, kws):
    """One form for calls that only differ in how arguments are passed."""
    if ft[0] == "attr" and ft[2] == "open":  # of a path
        ft, args = ("global", "builtins.open"), [ft[1]] + list(args)
    if ft == ("global", "builtins.open") and args:
        a = args[0]
        if a[0] == "call" and a[1][0] == "global" and a[1][1] in _PATHS and len(a[2]) == 1:
            args = [a[2][0]] + list(args[1:])
    if ft[0] == "global" and ft[1].startswith("builtins.str.") and args and args[0][0] != "star":
        n = ft[1][len("builtins.str."):]
        if n in _STR_METHODS:
            ft, args = ("attr", args[0], n), args[1:]
    sig = None
    if ft[0] == "global" and not ft[1].startswith("cwl_utils"):
        sig = signature(ft[1])
    elif ft[0] == "attr" and ft[2] in _METHODS:
        sig = (_METHODS[ft[2]], {})
    if sig is not None:
        ps, dflt = sig
        if kws and not any(a[0] == "star" for a in args) and all(k is not None for k, _ in kws):
            d = dict(kws)
            args = list(args)
            while len(args) < len(ps) and ps[len(args)] in d:
                args.append(d.pop(ps[len(args)]))
            # what is passed explicitly but is the default anyway
            d = {k: v for k, v in d.items() if not (k in dflt and v == ("const", dflt[k]) and type(v[1]) is type(dflt[k]))}
            kws = [(k, v) for k, v in kws if k in d]
        while len(args) > 1 and len(args) <= len(ps) and ps[len(args) - 1] in dflt:
            v = dflt[ps[len(args) - 1]]
            if args[-1] != ("const", v) or type(args[-1][1]) is not type(v):
                break
            args = list(args)[:-1]
    if ft[0] == "attr" and ft[2] == "rsplit" and len(args) < 2 and not kws:
        ft = ("attr", ft[1], "split")
    if ft[0] == "global" and ft[1] in _WRAP and len(args) == 1:
        a = args[0]
        if a[0] == "call" and a[1] == ("global", "copy.copy") and len(a[2]) == 1:
            args = [a[2][0]]
    return ft, args, kws


def _implies_neg(g, c, pol):
    """Length of the prefix of g that states that c has polarity (not pol)."""
    want = neg_guard(c) if pol else pos_guard(c)
    if want and tuple(g[: len(want)]) == tuple(want):
        return len(want)
    return 0


def term_key(args, kws):
    return tuple(args) + tuple(v for _, v in kws)


def _format(fmt, args, kws):
    import string
    parts = []
    auto = 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(("const", lit))
            if fld is None:
                continue
            if fld == "":
                v = args[auto]
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)]
            elif fld in kws:
                v = kws[fld]
            else:
                m = re.fullmatch(r"(\w*)((?:\[\w+\]|\.\w+)+)", fld)
                if m is None:
                    return None
                h = m.group(1)
                if h == "":
                    v = args[auto]
                    auto += 1
                elif h.isdigit():
                    v = args[int(h)]
                elif h in kws:
                    v = kws[h]
                else:
                    return None
                for x in re.findall(r"\[(\w+)\]|\.(\w+)", m.group(2)):
                    if x[1]:
                        v = ("attr", v, x[1])
                    else:
                        v = mk_index(v, ("const", int(x[0]) if x[0].isdigit() else x[0]))
            if conv == "r":
                v = ("call", ("global", "builtins.repr"), (v,), ())
            parts.append(v)
    except (ValueError, IndexError):
        return None
    return mk_str(parts)


_BOOL_TAGS = {"isinst", "isnone", "oneof", "in", "eq", "is", "lt", "le", "not", "and", "or", "hasattr", "cmp", "isseq"}


def _boolish(t) -> bool:
    if t[0] in _BOOL_TAGS:
        return True
    if t[0] == "const":
        return isinstance(t[1], bool)
    if t[0] == "call" and t[1][0] == "global" and t[1][1] in ("builtins.bool", "builtins.any", "builtins.all"):
        return True
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("startswith", "endswith", "exists", "is_dir", "is_file", "isdigit"):
        return True
    if t[0] == "ite":
        return _boolish(t[2]) and _boolish(t[3])
    return False


def _flat_bool(t):
    return t


def _own_loop_nodes(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _literal_elements(it: Term, limit: int = 40) -> Optional[list]:
    if it[0] == "new" and it[2] in ("list", "tuple", "set") and 0 < len(it[3]) <= limit:
        if all(x[0] != "star" and size(x, 60) <= 60 for x in it[3]) and (it[1] == () or it[2] != "list" or all(_is_lit(x) for x in it[3])):
            return list(it[3])
        if it[2] != "set" and len(it[3]) <= 6 and any(x[0] == "star" for x in it[3]) and all(x[0] == "star" or size(x, 60) <= 60 for x in it[3]):
            return list(it[3])
    if it[0] == "bin" and it[1] == "Add" and any(x[0] in ("new", "bin", "comp") or x[0] == "call" and x[1] == ("global", "builtins.list") for x in it[2:]):
        return [("star", it[2]), ("star", it[3])]
    if it[0] == "call" and it[1] == ("global", "itertools.chain") and 0 < len(it[2]) <= 6 and not it[3]:
        return [x if x[0] == "star" else ("star", x) for x in it[2]] if not any(x[0] == "star" for x in it[2]) else None
    if it[0] == "call" and it[1] == ("global", "builtins.enumerate") and len(it[2]) == 1 and not it[3]:
        inner = _literal_elements(it[2][0], limit)
        if inner is not None and not any(x[0] == "star" for x in inner):
            return [("new", (), "tuple", (("const", i), x)) for i, x in enumerate(inner)]
    if it[0] == "call" and it[1][0] == "global" and it[1][1] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(it[2]) == 1:
        return _literal_elements(it[2][0], limit)
    if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" and not it[2]:
        d = it[1][1]
        if d[0] == "new" and d[2] == "dict" and 0 < len(d[3]) <= limit and all(x[0] == "pair" and _is_lit(x[1]) for x in d[3]):
            return [("new", (), "tuple", (x[1], x[2])) for x in d[3]]
    return None


def _is_lit(x: Term) -> bool:
    return x[0] in ("const", "global") or (x[0] == "new" and x[2] == "tuple" and all(_is_lit(y) for y in x[3])) or x[0] in ("attr", "param")


def _load(t):
    n = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
    ast.fix_missing_locations(n)
    for x in ast.walk(n):
        if hasattr(x, "lineno"):
            x.lineno = t.lineno
    return n


_PSEUDO = {"loop", "try", "except", "with", "callback", "finally"}
_OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}


def _strip(t):
    """Remove allocation identities so that terms of different places compare."""
    if isinstance(t, tuple):
        if t and t[0] == "new":
            return ("new", (), t[2], tuple(_strip(x) for x in t[3]))
        if t and t[0] == "comp":
            return ("comp", t[1], _strip(t[2]), tuple(_strip(x) for x in t[3]), ())
        if t and t[0] == "func":
            return ("func",)
        if t and t[0] in ("try", "except") and len(t) == 3:
            return t[:2]
        return tuple(_strip(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(_strip(x) for x in t)
    return t


strip = _strip


class Result:
    def __init__(self, eng, func, events, returns, yields, end):
        self.eng = eng
        self.func = func
        self.events = events
        self.returns = returns
        self.yields = yields
        self.end = end
        self.inlined = set(eng.inlined)

    def of(self, kind):
        return [e for e in self.events if e.kind == kind]

    def calls(self, pred=None):
        for e in self.events:
            if e.kind == "call" and (pred is None or pred(callee(e.term))):
                yield e


def callee(t: Term) -> str:
    """Readable callee: dotted global name, '.method' for attribute calls."""
    f = t[1]
    if f[0] == "global":
        return f[1]
    if f[0] == "attr":
        return "." + f[2]
    return f[0]


def fmt(t, depth=0) -> str:
    """Human readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 7:
        return "..."
    d = depth + 1
    tag = t[0]
    if tag == "const":
        return repr(t[1])
    if tag == "param" or tag == "cbarg":
        return str(t[1])
    if tag == "global":
        return t[1].replace("cwl_utils.", "").replace("builtins.", "")
    if tag == "attr":
        return f"{fmt(t[1], d)}.{t[2]}"
    if tag == "item":
        return f"{fmt(t[1], d)}[{fmt(t[2], d)}]"
    if tag == "get":
        return f"{fmt(t[1], d)}.get({fmt(t[2], d)})"
    if tag == "call":
        a = [fmt(x, d) for x in t[2]] + [f"{k}={fmt(v, d)}" for k, v in t[3]]
        return f"{fmt(t[1], d)}({', '.join(a)})"
    if tag == "callb":
        return f"{fmt(t[1], d)}({', '.join(f'{k}={fmt(v, d)}' for k, v in t[2])})"
    if tag == "new" and isinstance(t[1], str):
        t = ("new", ()) + t[1:]
    if tag == "new":
        o, c = {"list": "[]", "tuple": "()", "set": "{}", "dict": "{}"}[t[2]]
        return o + ", ".join(fmt(x, d) for x in t[3]) + c
    if tag == "pair":
        return f"{fmt(t[1], d)}: {fmt(t[2], d)}"
    if tag == "str":
        return "f'" + "".join(x[1] if x[0] == "const" else "{" + fmt(x, d) + "}" for x in t[1]) + "'"
    if tag == "ite":
        return f"({fmt(t[2], d)} if {fmt(t[1], d)} else {fmt(t[3], d)})"
    if tag == "phi":
        return "phi(" + " | ".join(sorted(fmt(x, d) for x in t[1])) + ")"
    if tag == "isinst":
        return f"isinstance({fmt(t[1], d)}, {'|'.join(sorted(x.split('.')[-1] for x in t[2]))})"
    if tag == "isnone":
        return f"{fmt(t[1], d)} is None"
    if tag == "oneof":
        return f"{fmt(t[1], d)} in {{{', '.join(sorted(fmt(x, d) for x in t[2]))}}}"
    if tag == "not":
        return f"not {fmt(t[1], d)}"
    if tag in ("and", "or"):
        return "(" + f" {tag} ".join(fmt(x, d) for x in t[1]) + ")"
    if tag in ("try", "except") and len(t) == 3:
        return f"{tag}({t[1]})"
    if tag == "comp":
        return f"[{fmt(t[2], d)} for ...]"
    if not isinstance(tag, str):
        return "(" + ", ".join(fmt(x, d) if isinstance(x, tuple) else repr(x) for x in t) + ")"
    return tag + "(" + ", ".join(fmt(x, d) if isinstance(x, tuple) else repr(x) for x in t[1:]) + ")"


def fmt_guards(gs) -> str:
    return " and ".join(("" if p else "not ") + fmt(g) for g, p in gs)
