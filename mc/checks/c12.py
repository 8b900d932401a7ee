"""C12: concurrent compilation and decompilation give the sequential results.

Real threads under a controlled scheduler (mc/sched.py):
- every schedule with one switch: a call is stopped at every line (thorough: every bytecode) of the package it executes, other
  threads do complete calls (a list of different ones, failing ones included), then it goes on;
- schedules with two switches: A stops at i, B runs up to j, A finishes, B finishes - all (i, j) over function entries; the same with
  a third thread in between;
- cold parser caches: the same at every line of the prediction code of the parser runtime;
- everything two threads can both reach (modules, classes, defaults, closures and all mutable objects they hold) is watched line by
  line while each call runs: where calls write to such state, all switches around the writes are explored with every other call.
  Where none does, calls that run at the same time cannot influence each other through it, so all schedules are equivalent to
  the explored ones.
The outcome of every call must be the one it has alone.
"""
from __future__ import annotations

import json
import os
import shutil
import sys
import time
from itertools import count, product

from mc import events, iso, runner, sched

PROPERTY = "C12"
ASSUMPTIONS = [
    "a switch of threads happens between lines (thorough: between bytecodes) of the package or of the prediction code of the ANTLR runtime; C code (igraph) is atomic, as it is under the GIL",
    "threads do not share routine sets, compilers or decompilers (different inputs)",
]
ALL = [("compile", n) for n in events.COMPILES] + [("decompile", n) for n in events.DECOMPILES]
ALL += [("ssbs-compile", n) for n in events.SSBS_TEXTS] + [("ssbs-decompile", n) for n in ("texts", "cross", "coros")] + [("cli", n) for n in events.CLIS] + [("decompile-other", n) for n in events.OTHERS]
REF = {}
WRITES = os.path.join(runner.VERIF, "out", "C12", "writes")

# what the other threads do: lists of complete calls
B_ALL = (("decompile-other", "if"), ("compile", "ppl1"), ("compile", "midmacro"), ("decompile", "loop"), ("compile", "macro2"), ("ssbs-compile", "ok2"), ("decompile", "fallback"), ("decompile-other", "dmode"), ("cli", "plain"))
B_DEC = (("decompile-other", "if"), ("decompile", "bad"), ("decompile", "fallback"))
B_COMP = (("compile", "ppl2"), ("compile", "nomacro2"), ("compile", "lib2"))


def alone(ev):
    def go():
        with events.TempWorld() as w:
            return w.run(ev)

    return iso.in_child(go)


def prepare():
    if REF:
        return
    shutil.rmtree(WRITES, ignore_errors=True)
    iso.preload()
    for ev in ALL:
        REF[ev] = alone(ev)


def diff(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 60)
    return f"...{a[i:i+300]}\n  instead of\n...{b[i:i+300]}"


def wrong(evs, outs):
    """None or a description; outs: list of outcomes or a message"""
    if not isinstance(outs, list):
        return f"{evs}: {outs}"
    for ev, out in zip(evs, outs):
        if out != REF[ev]:
            return f"{ev}: {diff(out, REF[ev])}"
    return None


def run_schedules(case, rec):
    schedules(*case, rec)


def schedules(a, bs, kind, level, occ, two, cold, sl, sls, rec, pa=None, pb=None):
    """Stops A at its points, runs the calls of B in another thread, then A goes on.
    two: None, or (level, occ) of the points of B, where B is stopped and A finishes first; "three" additionally runs a third
    thread while both are stopped. pa, pb: only stop at these points of A and of B."""

    def go():
        stats = {"points": 0, "schedules": 0, "paused": 0, "blocked": 0}
        bad = []
        fk = sched.Forked()
        with events.TempWorld() as wa, events.TempWorld() as wb, events.TempWorld() as wc:
            if not cold:
                with events.TempWorld() as w:
                    for ev in (a,) + bs:
                        w.run(ev)
            st = {"b": None, "c": None, "where": None}

            def b_calls():
                return [wb.run(ev) for ev in bs]

            def c_calls():
                return [wc.run(ev) for ev in bs]

            def start_b(stop_at=None):
                t = sched.Thread(b_calls, stop_at, kind, *(two[:2] if two else ()))
                st["b"] = t
                t.start()
                if not t.wait_paused_or_blocked():
                    st["blocked"] = True
                if two and len(two) > 2 and t.did_pause:
                    c = st["c"] = sched.Thread(c_calls)
                    c.start()
                    c.wait_paused_or_blocked()

            def stop(n, frame):
                if n % sls != sl or fk.child or (pa is not None and n not in pa):
                    return
                stats["points"] += 1
                js = iter(pb if pb is not None else count())
                for j in js:
                    r = fk.fork()
                    if r is None:
                        sys.settrace(None)
                        st["where"] = sched.place(frame)
                        start_b(j if two else None)
                        return
                    stats["schedules"] += 1
                    if isinstance(r, str):
                        bad.append((n, j, sched.place(frame), None, r))
                        return
                    if r[0] is not None:
                        bad.append((n, j, sched.place(frame), r[1], r[0]))
                        return
                    stats["blocked"] += bool(r[3])
                    if not two or not r[2]:
                        return
                    stats["paused"] += 1

            p = sched.Points(kind, level, occ, stop)
            sys.settrace(p)
            try:
                out = wa.run(a)
            finally:
                sys.settrace(None)
            if fk.child:
                b, c = st["b"], st["c"]
                msg = wrong((a,), [out])
                b.resume.set()
                b.join(10)
                if b.is_alive():
                    msg = msg or f"{bs} in the other thread do not come to an end"
                else:
                    msg = msg or wrong(bs, b.out)
                if c is not None:
                    c.join(10)
                    msg = msg or (f"{bs} in the third thread do not come to an end" if c.is_alive() else wrong(bs, c.out))
                fk.report((msg, b.pause_place if b.did_pause else None, b.did_pause, st.get("blocked")))
        return stats, bad, wrong((a,), [out])

    stats, bad, after = iso.in_child(go, 800)
    rec.states(stats["points"])
    rec.transitions(stats["schedules"] * (2 + bool(two)))
    rec.trace(stats["schedules"])
    if stats["blocked"]:
        rec.outcome("the other thread had to wait", stats["blocked"])
    rec.outcome(f"{level} points of {a[0]}", stats["points"])
    rec.sample(f"{a} stopped at {level} points ({kind}), {bs} in between, {stats}")
    for n, j, where, bwhere, msg in bad[:1]:
        key = json.dumps([a, bs, where] + ([bwhere] if bwhere else []))
        rec.violation("schedule", key, f"{a} stopped at {where} (point {n})" + (f", {bs} stopped at {bwhere} (point {j})" if bwhere else f", {bs} in another thread") + f":\n{msg}")
    if after:
        raise RuntimeError(f"the run without switches has another outcome: {after}")


def writes_of(ev):
    """Runs the call, comparing everything threads share after every line.
    (number of lines, number of objects, [(index of the line the write happened before, place, objects)])"""

    def go():
        with events.TempWorld() as w:
            watch = sched.Watch()
            inside = sched.scope("own")
            writes = []
            n = [0]
            last = [None]

            def local(frame, event, arg):
                ch = watch.changed()
                if ch and len(writes) < 200:
                    writes.append((n[0], last[0], sorted(ch)))
                if event == "line":
                    n[0] += 1
                last[0] = sched.place(frame)
                return local

            def tr(frame, event, arg):
                if not inside(frame.f_code):
                    return None
                return local(frame, event, arg)

            sys.settrace(tr)
            try:
                w.run(ev)
            finally:
                sys.settrace(None)
            ch = watch.changed()
            if ch:
                writes.append((n[0], last[0], sorted(ch)))
            return n[0], len(watch.ds), writes

    return iso.in_child(go, 300)


def remembered_writes(ev):
    path = os.path.join(WRITES, "-".join(ev))
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        w = writes_of(ev)
        os.makedirs(WRITES, exist_ok=True)
        with open(path + f".{os.getpid()}", "w") as f:
            json.dump(w, f)
        os.replace(path + f".{os.getpid()}", path)
        return w


def write_points(writes, shared=None, limit=10):
    """Points right before and right after writes, the first two and the last of every place."""
    by_place = {}
    for n, place, objects in writes:
        if shared is None or shared & set(objects):
            by_place.setdefault(place, []).append(n)
    out = []
    for k in (0, 1, -1):
        for ns in by_place.values():
            if k < len(ns):
                out += [p for p in (ns[k], ns[k] - 1) if p >= 0 and p not in out]
    return sorted(out[:limit])


PARTNERS = [("compile", "macro2"), ("decompile", "loops"), ("compile", "macro1"), ("decompile", "switch"), ("ssbs-compile", "ok"), ("compile", "loops"), ("compile", "libs"), ("decompile", "texts"), ("compile", "switch"), ("cli", "jump"), ("compile", "midmacro"), ("decompile", "fallback")]


def run_watch(ev, rec):
    """Writes to state that all threads can reach, then switches around them."""
    n, objects, writes = remembered_writes(ev)
    rec.states(n)
    rec.transitions(n)
    rec.trace()
    rec.outcome("calls that write to shared state" if writes else "calls that write to no shared state")
    rec.count("watched objects", objects)
    rec.sample(f"{ev}: {n} lines, {objects} shared objects watched, {len(writes)} writes")
    if not writes:
        return
    for w in writes[:3]:
        rec.outcome(f"write at {w[1]} to {w[2][0]}")
    nv = len(rec.violations)
    t0 = time.time()
    objs = {o for w in writes for o in w[2]}
    # two switches: this call and another one that writes to the same, each stopped around its writes
    partners = 0
    for b in PARTNERS:
        if b == ev or partners >= 3 or time.time() - t0 > 60:
            continue
        w2 = remembered_writes(b)[2]
        shared = objs & {o for w in w2 for o in w[2]}
        if not shared:
            continue
        partners += 1
        schedules(ev, (b,), "own", "line", 10**9, ("line", 10**9), True, 0, 1, rec, write_points(writes, shared), write_points(w2, shared))
        if len(rec.violations) > nv:
            return
    # one switch around every write, with every other call
    others = [o for o in ALL if o != ev]
    pts = write_points(writes)
    for k in range(0, len(others), 8):
        if time.time() - t0 > 100:
            rec.outcome("stopped exploring other calls after 100 s")
            break
        schedules(ev, tuple(others[k : k + 8]), "own", "line", 10**9, None, True, 0, 1, rec, pts)
        if len(rec.violations) > nv:
            return


RICH = [("compile", "macro1"), ("compile", "loops"), ("compile", "switch"), ("compile", "libs"), ("compile", "strings"), ("decompile", "loops"), ("decompile", "switch"), ("decompile", "texts"), ("decompile", "dmode"), ("ssbs-compile", "ok"), ("ssbs-decompile", "texts"), ("cli", "jump"), ("decompile", "fallback"), ("compile", "midmacro")]


def slices(cases, n):
    for c in cases:
        for s in range(n):
            yield c + (s, n)


def spaces(tier):
    q = tier == "quick"
    prepare()
    S = runner.Space

    def once():
        for a in RICH if q else ALL:
            yield (a, B_ALL, "own", "line", 1 if q else 3, None, False)

    def once_full():
        yield (("decompile", "loop"), B_DEC, "own", "line", 10**9, None, False)
        yield (("compile", "macro2"), B_COMP, "own", "line", 10**9, None, False)
        if not q:
            for a in RICH:
                yield (a, B_DEC, "own", "opcode", 2, None, False)
                yield (a, B_COMP, "own", "opcode", 2, None, False)

    def twice():
        pairs = [(("decompile", "if"), ("decompile", "loop")), (("compile", "ppl1"), ("compile", "nomacro2")), (("decompile", "fallback"), ("compile", "parse"))]
        for a, b in pairs if q else product(RICH, RICH):
            yield (a, (b,), "own", "call", 1, ("call", 1), False)

    def three():
        pairs = [(("decompile", "if"), ("decompile", "switch")), (("compile", "ppl1"), ("compile", "ppl2")), (("decompile", "fallback"), ("decompile", "loop"))]
        for a, b in pairs:
            yield (a, (b,), "own", "call", 1, ("call", 1, "three"), False)

    def cold():
        cs = [(("compile", "one"), (("compile", "one"), ("compile", "ppl1"))), (("compile", "if"), (("compile", "macro1"),)), (("ssbs-compile", "ok"), (("ssbs-compile", "coro"), ("compile", "one"))), (("compile", "parse"), (("compile", "one"),))]
        for a, b in cs[::2] if q else cs:
            yield (a, b, "antlr", "line", 1 if q else 3, None, True)

    out = [
        S("watch", lambda: iter(ALL), run_watch, "all state two threads can reach, compared after every line of every call of the alphabet; switches around every write", chunk=1, timeout=600),
        S("once", lambda: slices(once(), 4), run_schedules, "one switch: every line of the calls, at its first (thorough: first 3) occurrence(s); 8 calls of all kinds in the other thread", chunk=1, timeout=600),
        S("once-full", lambda: slices(once_full(), 8), run_schedules, "one switch at every executed line (thorough: also at every bytecode of the rich calls, first 2 occurrences)", chunk=1, timeout=800),
        S("twice", lambda: slices(twice(), 16), run_schedules, "two switches at all pairs of function entries", chunk=1, timeout=800),
        S("cold", lambda: slices(cold(), 16), run_schedules, "one switch at every line of the prediction code of the parser runtime, caches cold", chunk=1, timeout=600),
    ]
    if not q:
        out.append(S("three", lambda: slices(three(), 8), run_schedules, "three threads: two switches at all pairs of function entries, a third thread in between", chunk=1, timeout=800))
    return out


if __name__ == "__main__":
    from mc.checks import c12

    sys.exit(runner.main(c12))
