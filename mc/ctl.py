"""A second copy of the code under test in which the choices the interpreter makes are under control.

Sets whose elements have no reproducible hash (strings, graph edges and vertices, plain objects) iterate in any order in a real
run: the order depends on the hash seed and on addresses. `id` of a dead object is given to a new one sooner or later. In the
copy every set of the package is a Set that asks the explorer for the order, and `id` reuses the number of a dead object at
the first opportunity.
"""
from __future__ import annotations

import ast
import enum
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import os
import sys
import types
import weakref

from mc import runner


class Chooser:
    def __init__(self):
        self.prefix = ()
        self.log = []
        self.on = False

    def choose(self, n):
        if not self.on or n < 2:
            return 0
        i = len(self.log)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((c, n))
        return c if c < n else 0


CH = Chooser()


def unpredictable(x):
    if isinstance(x, (str, bytes, enum.Enum)):
        return True
    if isinstance(x, (int, float, type(None))):
        return False
    if isinstance(x, (tuple, frozenset)):
        return any(unpredictable(y) for y in x)
    if type(x).__module__.split(".")[0] == "igraph":
        return True
    return type(x).__hash__ is object.__hash__


def orders(xs):
    """The orders a set may have. xs: list in the real order."""
    n = len(xs)
    if n < 2 or not any(unpredictable(x) for x in xs):
        return [xs]
    if all(hasattr(x, "index") and not callable(x.index) for x in xs):
        # edges/vertices: hash = address of the graph ^ index, so the low bits of the index are flipped by the address
        base = sorted(xs, key=lambda x: x.index)
        out = []
        for k in range(8):
            o = sorted(base, key=lambda x: ((x.index ^ k) & 7, x.index))
            if o not in out:
                out.append(o)
        return out
    if all(isinstance(x, (str, bytes)) for x in xs):
        base = sorted(xs)
        if n <= 3:
            return [list(p) for p in itertools.permutations(base)]
        return [base, base[::-1]] + [base[i:] + base[:i] for i in range(1, n)]
    return [xs, xs[::-1]]


class Set(set):
    def __iter__(self):
        os_ = orders(list(set.__iter__(self)))
        return iter(os_[CH.choose(len(os_))])

    def pop(self):
        if not self:
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.remove(x)
        return x

    __hash__ = None


def _wrap(name):
    f = getattr(set, name)

    def g(self, *a):
        r = f(self, *a)
        return Set(r) if type(r) is set else r

    g.__name__ = name
    setattr(Set, name, g)


for _n in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union", "intersection", "difference", "symmetric_difference", "copy"):
    _wrap(_n)


class Ids:
    """id() that gives out the number of a dead object again as soon as possible (per type, as allocators do)."""

    def __init__(self):
        self.of = {}  # real id -> (ref, number)
        self.dead = {}  # type -> numbers
        self.next = 1

    def __call__(self, x):
        k = type(x)
        e = self.of.get(builtin_id(x))
        if e is not None and e[0]() is x:
            return e[1]
        rid = builtin_id(x)

        def gone(_r, self=self, k=k, rid=rid):
            e = self.of.get(rid)
            if e is not None and e[0] is _r:
                del self.of[rid]
                self.dead.setdefault(k, []).append(e[1])

        try:
            r = weakref.ref(x, gone)
        except TypeError:
            return rid
        d = self.dead.get(k)
        n = d.pop() if d else -self.next
        if not d and n == -self.next:
            self.next += 1
        self.of[rid] = (r, n)
        return n


builtin_id = id


class T(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "set":
            n.func = ast.copy_location(ast.Name("_mc_set", ast.Load()), n.func)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_mc_set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_mc_set", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(T().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["_mc_set"] = Set
        module.__dict__["id"] = IDS
        super().exec_module(module)


IDS = Ids()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "explorerscript" or name.startswith("explorerscript.antlr"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(name, spec.loader.path)
        return spec


def load():
    """Replaces the code under test by the controlled copy in this process; returns mc.ssb on top of it."""
    for n in [n for n in sys.modules if n == "mc.ssb" or n == "explorerscript" or (n.startswith("explorerscript.") and not n.startswith("explorerscript.antlr"))]:
        del sys.modules[n]
    sys.meta_path.insert(0, Finder())
    return importlib.import_module("mc.ssb")


def explore(run, deviations, limit=100000):
    """All executions of run() whose orders deviate from the first one at up to `deviations` choice points.
    Yields (choices, result)."""
    todo = [((), 0)]
    n = 0
    while todo:
        prefix, dev = todo.pop()
        CH.prefix, CH.log, CH.on = prefix, [], True
        try:
            res = run()
        finally:
            CH.on = False
        log = list(CH.log)
        yield tuple(c for c, _ in log), res
        n += 1
        if n >= limit:
            return
        if dev < deviations:
            for i in range(len(prefix), len(log)):
                for alt in range(1, log[i][1]):
                    todo.append((tuple(c for c, _ in log[:i]) + (alt,), dev + 1))
