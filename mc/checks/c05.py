"""C05: a macro call means its body inlined (lock-step exploration against the inlined meaning)."""
from __future__ import annotations

import os
import shutil
import sys
import tempfile

from mc import macros, runner, src, ssb
from mc.checks import c01

PROPERTY = "C05"


def check(ms, routines, rec, text=None, compiled=None, must_compile=True):
    text = text or src.render({"macros": ms, "routines": routines})
    if not rec.samples:
        rec.sample(text)
    try:
        nodes, ents, infos = src.meaning(routines, ms)
    except src.Meaningless:
        rec.outcome("meaningless")
        return
    if compiled is None:
        try:
            compiled = ssb.compile_text(text)
        except Exception as e:
            rec.outcome(f"rejected {type(e).__name__}")
            if must_compile:
                rec.violation("rejected", text, f"{type(e).__name__}: {e}")
            return
    rec.outcome("accepted")
    c01.judge(compiled, nodes, ents, infos, rec, text)


def run_pair(case, rec):
    check(case[0], case[1], rec)


def run_param(case, rec):
    check(case[1], case[2], rec)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        import atexit
        from multiprocessing.util import Finalize

        d = tempfile.mkdtemp(prefix="verif-c05-")
        _scratch = (os.getpid(), d)
        Finalize(None, shutil.rmtree, args=(d,), kwargs={"ignore_errors": True}, exitpriority=10)
        atexit.register(shutil.rmtree, d, True)
    return _scratch[1]


def write_files(files, base):
    for p, content in files.items():
        full = os.path.join(base, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if content is None:
            os.makedirs(full)
            continue
        imports, ms = content
        with open(full, "w") as f:
            f.write(src.render({"imports": [i.replace("@ROOT@", base) for i in imports], "macros": ms, "routines": ()}))


def run_files(case, rec):
    files, main, ms, routines = macros.file_case(case) if len(case) > 3 else macros.chain_files_case(case)
    base = os.path.realpath(tempfile.mkdtemp(dir=scratch()))
    try:
        fs = dict(files)
        write_files(fs, base)
        imports, own = files[main]
        text = src.render({"imports": [i.replace("@ROOT@", base) for i in imports], "macros": own, "routines": routines})
        key = repr(case)
        if not rec.samples:
            rec.sample(text)
        nodes, ents, infos = src.meaning(routines, ms)
        try:
            c = ssb.compile_text(text, os.path.join(base, main), [os.path.join(base, d) for d in ("missing", *macros.LOOKUPS)])
        except Exception as e:
            rec.violation("rejected", key, f"{type(e).__name__}: {e}\n{text}")
            return
        rec.outcome("accepted")
        c01.judge(c, nodes, ents, infos, rec, key)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def graphs(hi):
    for n in range(1, hi + 1):
        yield from macros.graph_programs(n)


def spaces(tier):
    q = tier == "quick"
    return [
        runner.Space("files", lambda: macros.file_programs(q), run_files, "3 macros over main and two imported files: every acyclic call set x 5 directories each x import styles (./ ../ absolute, lookup, lookup subdirectory) x import order, decoys everywhere else (files, directories of the name, a lookup path that does not exist)", chunk=16),
        runner.Space("params", macros.param_programs, run_param, "a macro parameter in every operand position x every argument type, direct and through a second macro"),
        runner.Space("graphs", lambda: graphs(4 if q else 5), run_pair, "all labelled acyclic call graphs of up to 4 (thorough 5) macros = all definition orders"),
        runner.Space("bodies", lambda: macros.body_programs("orhlcjinxsdfwM", ("a",), 3 if q else 4), run_pair, "all macro bodies of cost <= 3 (thorough 4) x 13 call contexts"),
        runner.Space("many", lambda: macros.wide_programs(8 if q else 16), run_pair, "chains of 1..8 (thorough 16) macros x definition orders, 1..8 (16) parameters in every rotation, calls, routines, macros"),
        runner.Space("file chains", lambda: macros.chain_files(5 if q else 8), run_files, "chains of up to 5 (thorough 8) imported files over directories", chunk=4),
        runner.Space("nested bodies", lambda: macros.deep_bodies(2 if q else 3), run_pair, "chains of 2 (thorough 3) nested blocks of 15 kinds as macro bodies, 2 call contexts each"),
        runner.Space("bodies2", lambda: macros.body_programs("orljisx", ("a",), 4 if q else 5), run_pair, "all macro bodies (ops, return, label, jump, if/else, switch) of cost <= 4 (thorough 5) x 13 call contexts"),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
