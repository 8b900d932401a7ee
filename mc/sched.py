"""A controlled scheduler for real threads running the real code.

Thread A is the main thread of a process; a trace function stops it at chosen points (line, opcode or call events of the code
under test). At every such point the process is forked; in the copy the other threads run as the schedule says while A stays
where it is, then A goes on. Every schedule therefore really happens, in real threads, from exactly the same state.
"""
from __future__ import annotations

import fcntl
import os
import pickle
import signal
import stat
import sys
import threading
import types

from mc import iso, runner

PKG = os.path.join(os.path.realpath(runner.REPO), "explorerscript") + os.sep
GEN = os.path.join(PKG, "antlr") + os.sep
ATN_FILES = ("ParserATNSimulator.py", "LexerATNSimulator.py", "ATNSimulator.py", "DFA.py", "DFAState.py", "PredictionContext.py", "ATN.py", "LL1Analyzer.py", "ATNConfigSet.py")
ATN_SKIP = ("__hash__", "__eq__", "hashConfigs", "hashCode")


def scope(kind):
    """code object -> is it one whose events are points of the given kind?"""
    memo = {}

    def f(code):
        r = memo.get(code)
        if r is None:
            fn = os.path.realpath(code.co_filename)
            if kind == "antlr":
                r = os.sep + "antlr4" + os.sep in fn and os.path.basename(fn) in ATN_FILES and code.co_name not in ATN_SKIP
            else:
                r = fn.startswith(PKG) and not fn.startswith(GEN)
            memo[code] = r
        return r

    return f


class Points:
    """Trace function that calls stop(n, where) at the points: events of the scope, each place up to `occ` times.
    level: "call", "line" or "opcode"."""

    def __init__(self, kind, level, occ, stop):
        self.inside, self.level, self.occ, self.stop = scope(kind), level, occ, stop
        self.seen = {}
        self.n = 0
        self.busy = False

    def at(self, frame, what):
        key = (frame.f_code, what)
        k = self.seen.get(key, 0)
        if k >= self.occ:
            return
        self.seen[key] = k + 1
        n = self.n
        self.n += 1
        self.stop(n, frame)

    def __call__(self, frame, event, arg):
        if not self.inside(frame.f_code):
            return None
        if self.level == "call":
            self.at(frame, 0)
            return None
        if self.level == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.level == "line":
            self.at(frame, frame.f_lineno)
        elif event == "opcode":
            self.at(frame, frame.f_lasti)
        return self.local


def place(frame):
    return f"{os.path.relpath(frame.f_code.co_filename, PKG)}:{frame.f_lineno} {frame.f_code.co_name}"


class Thread(threading.Thread):
    """Runs calls one after the other; outcomes in .out. If stop_at is set, it pauses at its stop_at-th point."""

    def __init__(self, call, stop_at=None, kind="own", level="call", occ=1, first=None):
        super().__init__(daemon=True)
        self.call = call
        self.out = None
        self.stop_at = stop_at
        self.spec = (kind, level, occ)
        self.paused = threading.Event()
        self.resume = threading.Event()
        self.did_pause = False
        self.pause_place = None
        self.first = first
        self.ticks = 0

    def run(self):
        try:
            if self.stop_at is not None:
                p = Points(*self.spec, self.stop)
                sys.settrace(p)
            try:
                self.out = self.call()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.out = f"thread ended by {type(e).__name__}: {e}"
        finally:
            self.paused.set()

    def stop(self, n, frame):
        if n == self.stop_at:
            sys.settrace(None)
            self.did_pause = True
            self.pause_place = place(frame)
            self.paused.set()
            # a thread waiting for a lock this one holds would never come back: go on after a while
            self.resume.wait(3)

    def wait_paused_or_blocked(self, patience=1.0):
        """Until the thread has paused or ended, or does not get on because it waits for a lock somebody holds."""
        return self.paused.wait(patience)


def own_offsets():
    """A forked copy shares the offsets of open files; give it its own."""
    for fd in os.listdir("/proc/self/fd"):
        fd = int(fd)
        try:
            if not stat.S_ISREG(os.fstat(fd).st_mode) or fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_ACCMODE != os.O_RDONLY:
                continue
            pos = os.lseek(fd, 0, os.SEEK_CUR)
            n = os.open(f"/proc/self/fd/{fd}", os.O_RDONLY)
            os.lseek(n, pos, os.SEEK_SET)
            os.dup2(n, fd)
            os.close(n)
        except OSError:
            pass


class Forked:
    """fork at a point; the copy goes on and reports at the end of the call of A"""

    def __init__(self):
        self.r = self.w = None
        self.child = False

    def fork(self):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, 30)
            self.child, self.w = True, w
            own_offsets()
            return None
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data:
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
                return "hang"
            return f"the process ended with status {st}"
        return pickle.loads(data)

    def report(self, x):
        data = pickle.dumps(x)
        while data:
            data = data[os.write(self.w, data) :]
        os._exit(0)


# ---- writes to shared state ---------------------------------------------------------------------------------------------
ATOMS = (int, float, bool, str, bytes, complex, type(None), types.CodeType, types.BuiltinFunctionType, types.ModuleType)
SKIP_KEYS = iso.SKIP_ATTRS | {"_abc_impl", "__abstractmethods__", "__qualname__", "__module__"}


def process_state():
    """what the whole process shares, outside of the package"""
    import builtins
    import locale
    import logging
    import warnings

    return (
        os.getcwd(), len(os.environ), sys.getrecursionlimit(), id(sys.stdout), id(sys.stderr), id(sys.stdin), sys.getswitchinterval(),
        list(map(id, vars(builtins).values())), list(map(id, warnings.filters)), logging.root.level, logging.root.manager.disable, locale.setlocale(locale.LC_ALL),
        sys.get_int_max_str_digits(), len(sys.path), len(sys.meta_path), len(threading.enumerate()),
    )


class Watch:
    """Everything two threads can both reach: modules, classes, functions of the package and the mutable objects they hold."""

    def __init__(self):
        self.build()

    def build(self):
        self.ds = []  # (description, dict, values) - values: ids
        self.fns, self.fds = [], []
        seen = set()
        todo = []
        for name, m in sorted((n, m) for n, m in sys.modules.items() if n.split(".")[0] == "explorerscript"):
            todo.append((name, m.__dict__))
        self.keep = []
        while todo:
            desc, x = todo.pop()
            if id(x) in seen or isinstance(x, ATOMS):
                continue
            seen.add(id(x))
            self.keep.append(x)
            t = type(x)
            mod = t.__module__.split(".")[0]
            if isinstance(x, dict):
                self.ds.append((desc, "d", x, None))
                todo += [(f"{desc}[{k!r}]" if not isinstance(k, str) else f"{desc}.{k}", v) for k, v in list(x.items()) if not (isinstance(k, str) and k in SKIP_KEYS)]
            elif isinstance(x, (list, set, frozenset, tuple)) or (mod == "collections" and hasattr(x, "__iter__")):
                if not isinstance(x, (tuple, frozenset)):
                    self.ds.append((desc, "l", x, None))
                todo += [(f"{desc}[...]", v) for v in list(x)]
            elif isinstance(x, type):
                if x.__module__.split(".")[0] == "explorerscript":
                    self.ds.append((desc, "c", x, None))
                    todo += [(f"{desc}.{k}", v) for k, v in list(vars(x).items()) if k not in SKIP_KEYS]
            elif isinstance(x, types.FunctionType):
                if (x.__module__ or "").split(".")[0] == "explorerscript":
                    if x.__module__.startswith("explorerscript.antlr."):
                        continue
                    self.fns.append(x)
                    self.fds.append(x.__dict__)
                    todo += [(desc + ".__defaults__", x.__defaults__ or ()), (desc + ".__kwdefaults__", x.__kwdefaults__ or ())]
                    if x.__dict__:
                        todo.append((desc + ".__dict__", x.__dict__))
                    for c in x.__closure__ or ():
                        self.ds.append((desc + " closure", "x", c, None))
                        try:
                            todo.append((desc + " closure", c.cell_contents))
                        except ValueError:
                            pass
            elif isinstance(x, (staticmethod, classmethod)):
                todo.append((desc, x.__func__))
            elif isinstance(x, property):
                todo += [(desc, y) for y in (x.fget, x.fset, x.fdel)]
            elif t is types.MethodType:
                todo += [(desc, x.__func__), (desc, x.__self__)]
            elif t.__module__ == "itertools":
                self.ds.append((desc, "r", x, None))
            elif hasattr(x, "cache_info") and callable(getattr(x, "cache_info", None)):
                self.ds.append((desc, "u", x, None))
            elif mod in ("explorerscript", "antlr4", "igraph", "mc") or hasattr(x, "__dict__"):
                if t.__module__.startswith("antlr4.atn") or t.__module__.startswith("logging") or isinstance(x, (types.MappingProxyType,)):
                    continue
                d = getattr(x, "__dict__", None)
                if isinstance(d, dict):
                    todo.append((desc, d))
                for c in t.__mro__:
                    s = c.__dict__.get("__slots__", ())
                    s = (s,) if isinstance(s, str) else tuple(s)
                    if s and t.__module__.split(".")[0] in ("explorerscript", "antlr4"):
                        self.ds.append((desc, "s", x, s))
                        todo += [(f"{desc}.{k}", getattr(x, k)) for k in s if hasattr(x, k)]
                if isinstance(x, (list, dict, set)):
                    pass
        self.ds.append(("a function", "f", (self.fns, self.fds), None))
        self.ds.append(("the process", "p", None, None))
        self.now = [self.print1(d) for d in self.ds]

    @staticmethod
    def print1(d):
        _, k, x, s = d
        if k == "p":
            return process_state()
        if k == "d":
            if "__slotnames__" in x or "__warningregistry__" in x:
                return [id(v) for q, v in x.items() if q not in ("__slotnames__", "__warningregistry__")]
            return list(map(id, x.values()))
        if k == "l":
            return list(map(id, x))
        if k == "c":
            v = vars(x)
            if "__slotnames__" in v:
                return [id(y) for q, y in v.items() if q != "__slotnames__"]
            return list(map(id, v.values()))
        if k == "f":
            return [id(f.__defaults__) for f in x[0]], list(map(len, x[1]))
        if k == "x":
            try:
                return [id(x.cell_contents)]
            except ValueError:
                return []
        if k == "r":
            return repr(x)
        if k == "u":
            return x.cache_info()
        return [id(getattr(x, q, None)) for q in s]

    def changed(self):
        """descriptions of what was written since the last call"""
        out = []
        p1 = self.print1
        for i, d in enumerate(self.ds):
            n = p1(d)
            if n != self.now[i]:
                out.append(d[0])
        if out:
            self.build()
        return out
