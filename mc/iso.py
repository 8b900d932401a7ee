"""Fresh processes, and snapshots of everything the code under test keeps between two calls."""
from __future__ import annotations

import gc
import hashlib
import logging
import os
import pickle
import signal
import sys
import types


class ChildTimeout(Exception):
    pass


def in_child(fn, timeout=60):
    """Result of fn() in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, timeout)
            try:
                res = (True, fn())
            except BaseException as e:  # harness failure, told to the parent
                import traceback

                res = (False, "".join(traceback.format_exception(e)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            raise ChildTimeout()
        raise RuntimeError(f"child ended with status {st}")
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError(v)
    return v


# ---- state ------------------------------------------------------------------------------------------------------------
# The caches of the parser runtime only ever hold what was computed from the grammar; they are not part of a state.
SKIP_ATTRS = {"atn", "decisionsToDFA", "sharedContextCache", "__builtins__", "__loader__", "__spec__", "__cached__", "__file__", "__doc__", "__annotations__", "__weakref__", "__dict__", "__slotnames__"}


def preload():
    """Imports all modules of the code under test, so that importing is not part of the histories."""
    import importlib
    import pkgutil

    import explorerscript

    for m in pkgutil.walk_packages(explorerscript.__path__, "explorerscript."):
        try:
            importlib.import_module(m.name)
        except (Exception, SystemExit):
            pass


def roots():
    for name in sorted(sys.modules):
        if name.split(".")[0] == "explorerscript":
            yield name, sys.modules[name]


class Snap:
    def __init__(self, base=None):
        self.base = base
        self.memo = {}
        self.out = []
        self.keep = []

    def emit(self, *xs):
        self.out.extend(xs)

    def digest(self):
        s = "\0".join(map(str, self.out))
        if self.base is not None:
            s = s.replace(self.base, "@ROOT@")
        return hashlib.sha1(s.encode("utf-8", "replace")).hexdigest()

    def walk(self, x, owner=None):
        t = type(x)
        if x is None or t in (int, float, bool, str, bytes, complex):
            self.emit(t.__name__, repr(x))
            return
        if id(x) in self.memo:
            self.emit("ref", self.memo[id(x)])
            return
        self.memo[id(x)] = len(self.memo)
        self.keep.append(x)
        if t in (list, tuple):
            self.emit(t.__name__, len(x))
            for y in x:
                self.walk(y)
        elif isinstance(x, dict) or t is types.MappingProxyType:
            self.emit("dict", t.__name__, len(x))
            for k in list(x):
                self.walk(k)
                self.walk(x[k])
        elif isinstance(x, (set, frozenset)):
            subs = sorted(stand_alone(y) for y in x)
            self.emit(t.__name__, len(x), *subs)
        elif t in (types.FunctionType,):
            self.emit("function", x.__module__, x.__qualname__)
            if (x.__module__ or "").split(".")[0] == "explorerscript":
                self.walk(x.__defaults__)
                self.walk(x.__kwdefaults__)
                self.walk({k: v for k, v in x.__dict__.items() if k not in SKIP_ATTRS})
                for c in x.__closure__ or ():
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        self.emit("empty cell")
        elif t is types.MethodType:
            self.emit("method")
            self.walk(x.__func__)
            self.walk(x.__self__)
        elif isinstance(x, (staticmethod, classmethod)):
            self.walk(x.__func__)
        elif isinstance(x, property):
            for y in (x.fget, x.fset, x.fdel):
                self.walk(y)
        elif isinstance(x, types.ModuleType):
            self.emit("module", x.__name__)
        elif isinstance(x, (logging.Logger, types.CodeType, types.BuiltinFunctionType)):
            self.emit("atom", t.__name__)
        elif isinstance(x, type):
            self.emit("class", x.__module__, x.__qualname__)
            if x.__module__.split(".")[0] == "explorerscript":
                for k in sorted(vars(x)):
                    if k not in SKIP_ATTRS and k not in ("__module__", "__qualname__", "_abc_impl", "__abstractmethods__", "__parameters__", "__orig_bases__"):
                        self.emit(k)
                        self.walk(vars(x)[k])
        elif hasattr(x, "cache_info") and callable(x.cache_info):
            self.emit("lru", x.cache_info()._replace(hits=0, misses=0) if hasattr(x.cache_info(), "_replace") else "")
        elif t.__module__.split(".")[0] in ("explorerscript", "mc") or t.__module__ in ("itertools", "collections", "types"):
            self.emit("object", t.__module__, t.__qualname__)
            if t.__module__ == "itertools":
                self.emit(repr(x))
            d = getattr(x, "__dict__", None)
            if d is not None:
                for k in sorted(d):
                    if k not in SKIP_ATTRS:
                        self.emit(k)
                        self.walk(d[k])
            for c in t.__mro__:
                s = c.__dict__.get("__slots__", ())
                for k in (s,) if isinstance(s, str) else s:
                    if hasattr(x, k):
                        self.emit(k)
                        self.walk(getattr(x, k))
            if t.__module__ == "collections" and hasattr(x, "__iter__"):
                for y in x:
                    self.walk(y)
        else:
            self.emit("foreign", t.__module__, t.__qualname__)


def stand_alone(x):
    s = Snap()
    s.walk(x)
    return s.digest()


def snapshot(extra=(), base=None):
    """Hash of all state the modules of the code under test hold (and of the given objects)."""
    s = Snap(base)
    for name, mod in roots():
        if name.startswith("explorerscript.antlr."):
            continue
        s.emit("MODULE", name)
        for k in sorted(vars(mod)):
            v = vars(mod)[k]
            if k in SKIP_ATTRS or isinstance(v, types.ModuleType):
                continue
            s.emit(k)
            s.walk(v)
    s.emit("PROCESS", os.getcwd(), sys.getrecursionlimit(), sorted(os.environ.items()), sys.path, len(sys.meta_path), gc.isenabled())
    for x in extra:
        s.emit("EXTRA")
        s.walk(x)
    return s.digest(), len(s.out)


def describe(extra=()):
    """Like snapshot, per module attribute; to tell what changed."""
    out = {}
    for name, mod in roots():
        if name.startswith("explorerscript.antlr."):
            continue
        for k in sorted(vars(mod)):
            v = vars(mod)[k]
            if k in SKIP_ATTRS or isinstance(v, types.ModuleType):
                continue
            out[f"{name}.{k}"] = stand_alone(v)
            if isinstance(v, type) and v.__module__ == name:
                for a in vars(v):
                    if a not in SKIP_ATTRS:
                        out[f"{name}.{k}.{a}"] = stand_alone(vars(v)[a])
    for i, x in enumerate(extra):
        out[f"object {i}"] = stand_alone(x)
    return out
