"""C11: results depend only on the input.

Histories: every sequence of calls (all pairs over an alphabet of compile/decompile calls with fresh and reused objects, failing
calls included; all triples over a core alphabet) is really executed in a process of its own. The outcome of every call must be
the one the call has alone in a fresh interpreter; fresh interpreters with different hash seeds must agree. After every pair the
complete state the package keeps is hashed: if it is a state single calls lead to, longer histories add nothing; where it is not,
the history is extended by every call.
Long histories: enumerated routine sets and programs in one process, in order and in reverse order, must give the same outcomes.
Orders: in a controlled copy of the package, all iteration orders unordered sets may have (and the reuse of ids of dead objects)
are explored up to a number of deviations.
"""
from __future__ import annotations

import hashlib
import json
import os
import subprocess
import sys
from itertools import islice, product

from mc import ctl, events, gen, iso, macros, runner, src, ssb
from mc.checks import c02

PROPERTY = "C11"
ASSUMPTIONS = [
    "the caches of the ANTLR runtime only hold what was computed from the grammar and are not part of the state; their effect on results is covered by the executed histories only",
    "exceptions are compared by type and message",
]
SEEDS = ("0", "1", "2", "3")
LIMIT = 3000  # executions per input in run_orders
REF = {}  # event -> outcome alone in a fresh interpreter
REFSTATES = set()
EVENTS = events.all_events()


def alone(ev):
    def go():
        with events.TempWorld() as w:
            out = w.run(ev)
            return out, w.altered, state(w)

    return iso.in_child(go)


def state(w):
    """Hashes of the parts of the state: what the package holds, and every object the caller keeps (they share nothing)."""
    out = {("package", iso.snapshot((), w.base)[0])}
    for name, x in w.objects():
        s = iso.Snap(w.base)
        s.walk(x)
        out.add((name, s.digest()))
    return out


def reference(seed):
    env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=os.pathsep.join(sys.path[:0] + [runner.REPO, runner.VERIF]))
    return subprocess.Popen([sys.executable, "-m", "mc.checks.c11", "--reference"], env=env, cwd=runner.VERIF, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def references():
    if REF:
        return
    iso.preload()
    ps = {s: reference(s) for s in SEEDS}
    for s, p in ps.items():
        out = json.loads(p.communicate()[0])
        for k, (outcome, st) in out.items():
            REF.setdefault(k, {})[s] = outcome
            if s == SEEDS[0]:
                pass
    # states are compared within processes forked from this one
    from multiprocessing import get_context

    with get_context("fork").Pool(runner.NPROC) as pool:
        for st in pool.imap_unordered(_state_alone, EVENTS, chunksize=4):
            REFSTATES.update(st)


def _state_alone(ev):
    return alone(ev)[2]


def ref(ev):
    return REF[json.dumps(ev)][SEEDS[0]]


def short(s):
    return s if len(s) < 900 else s[:900] + "..."


def diff(a, b):
    """where two outcomes begin to differ"""
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 60)
    return f"...{a[i:i+400]}\n  instead of\n...{b[i:i+400]}"


def run_fresh(ev, rec):
    rec.states(1)
    rec.transitions(len(SEEDS))
    rec.trace(len(SEEDS))
    rs = REF[json.dumps(ev)]
    for s in SEEDS[1:]:
        if rs[s] != rs[SEEDS[0]]:
            rec.violation("process", json.dumps(ev), f"{ev} with hash seed {s}: {diff(rs[s], rs[SEEDS[0]])}")
            return
    out, altered, _ = alone(ev)
    if out != rs[SEEDS[0]]:
        rec.violation("process", json.dumps(ev), f"{ev} in another process: {diff(out, rs[SEEDS[0]])}")
    for kind, n, before, after in altered:
        rec.violation("input-altered", json.dumps(ev), f"{ev}: the routine set was changed: {diff(after, before)}")


def run_history(hist, rec):
    extend = len(hist) == 2

    def go():
        with events.TempWorld() as w:
            outs = [w.run(ev) for ev in hist]
            st = state(w) if extend else None
            more = []
            if extend and not st <= REFSTATES:
                # the calls led to a state that no single call leads to: look at everything that can follow
                for ev in EVENTS:
                    def next_(ev=ev):
                        try:
                            return w.run(ev)
                        finally:
                            pass

                    more.append((ev, iso.in_child(next_)))
            return outs, w.altered, st, more

    outs, altered, st, more = iso.in_child(go, 100)
    rec.states(len(hist))
    rec.transitions(len(hist) + len(more))
    rec.trace(1 + len(more))
    key = json.dumps(hist)
    rec.sample(key)
    for i, (ev, out) in enumerate(zip(hist, outs)):
        if out != ref(ev):
            rec.violation("history", key, f"{ev} after {hist[:i]}: {diff(out, ref(ev))}")
            return
    for kind, n, before, after in altered:
        rec.violation("input-altered", key, f"{(kind, n)}: the routine set was changed: {diff(after, before)}")
        return
    for ev, out in more:
        if out != ref(ev):
            rec.violation("history", json.dumps(list(hist) + [ev]), f"{ev} after {hist}: {diff(out, ref(ev))}")
            return
    if extend:
        rec.outcome("state known from single calls" if st <= REFSTATES else "new state, extended by every call")


# ---- long histories -----------------------------------------------------------------------------------------------------
def calls_on(item, shared=None, sb=None):
    """outcome of the calls for one enumerated input; shared: objects kept over the inputs"""
    sb = sb or ssb
    kind, x = item
    if kind == "text":
        try:
            c = sb.compile_text(x, compiler=shared.get("c") if shared else None)
            return repr((events.ops_of(c.routine_ops), events.infos_of(c.routine_infos), events.coros_of(c.named_coroutines), c.source_map.serialize()))
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    rset = c02.realize(*x) if kind == "ops" else x
    try:
        text, sm = sb.decompile(rset)
        return repr((text, sm.serialize()))
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def repeated(item):
    """the same objects again, and the same decompiler again"""
    kind, x = item
    if kind == "text":
        return None
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

    rset = c02.realize(*x) if kind == "ops" else x
    infos, rops, coros = ssb.build(rset)
    before = repr((events.ops_of(rops), events.infos_of(infos), events.coros_of(coros)))
    outs = []
    d = None
    for k in range(3):
        if k != 2:
            d = ExplorerScriptSsbDecompiler(infos, rops, coros, ssb.PPL, DungeonModeConstants(*ssb.DMODES))
        try:
            text, sm = d.convert()
            outs.append(repr((text, sm.serialize())))
        except Exception as e:
            outs.append(f"{type(e).__name__}: {e}")
    after = repr((events.ops_of(rops), events.infos_of(infos), events.coros_of(coros)))
    return outs, before, after


def show(item):
    kind, x = item
    if kind == "text":
        return x
    return ssb.show_ops((c02.realize(*x) if kind == "ops" else x)[1])


def run_batch(items, rec):
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    def forward():
        return [calls_on(i) for i in items]

    def backward():
        shared = {"c": ExplorerScriptSsbCompiler(ssb.PPL, [])}
        out = []
        for i in reversed(items):
            out.append((calls_on(i, shared), repeated(i)))
        return out[::-1]

    a = iso.in_child(forward)
    b = iso.in_child(backward)
    rec.states(2 * len(items))
    rec.transitions(sum(2 if k == "text" else 5 for k, _ in items))
    rec.trace(2)
    rec.sample(show(items[0]))
    for item, x, (y, r) in zip(items, a, b):
        if x != y:
            rec.violation("order", show(item), f"the outcome depends on what was processed before:\n{diff(y, x)}", case=(item,))
            return
        if r is not None:
            outs, before, after = r
            for k, z in enumerate(outs):
                if z != x:
                    rec.violation("repeated", show(item), ("decompiling the same objects " + ("", "again ", "again with the same decompiler ")[k]) + f"gives something else:\n{diff(z, x)}", case=(item,))
                    return
            if before != after:
                rec.violation("input-altered", show(item), f"the routine set was changed:\n{diff(after, before)}", case=(item,))
                return


def run_alone(items, rec):
    """Each input in a process of its own vs. the whole list in one process."""

    def forward():
        return [calls_on(i) for i in items]

    a = iso.in_child(forward)
    for item, x in zip(items, a):
        y = iso.in_child(lambda item=item: calls_on(item))
        rec.states(2)
        rec.transitions(2)
        rec.trace()
        if x != y:
            rec.violation("order", show(item), f"the outcome depends on what was processed before:\n{diff(x, y)}", case=(item,))
            return


def run_orders(case, rec):
    deviations, items = case

    def go():
        sb = ctl.load()
        res = []
        for item in items:
            first = None
            n = points = 0
            for choices, out in ctl.explore(lambda: calls_on(item, sb=sb), deviations, LIMIT):
                n += 1
                points = max(points, len(choices))
                if first is None:
                    first = out
                elif out != first:
                    res.append((item, n, points, choices, diff(out, first)))
                    break
            else:
                res.append((item, n, points, None, first))

        return res

    real = iso.in_child(lambda: [calls_on(i) for i in items])
    for (item, n, points, choices, out), r in zip(iso.in_child(go, 200), real):
        if choices is None and out != r:
            rec.violation("set-order", show(item), f"the real outcome is not that of any explored order:\n{diff(r, out)}", case=(deviations, (item,)))
            return
        rec.states(n)
        rec.transitions(n * max(points, 1))
        rec.trace(n)
        rec.outcome(("orders to choose from" if n < LIMIT else "cut off at the limit") if points else "no unordered choice")
        if choices is not None:
            rec.violation("set-order", show(item), f"the outcome depends on the order of a set (choices {choices}):\n{out}", case=(deviations, (item,)))


def batches(it, n):
    it = iter(it)
    while True:
        b = tuple(islice(it, n))
        if not b:
            return
        yield b


def ops_items(alphabet, lo, hi, nr=1, reach=None):
    for c in c02.op_cases(alphabet, lo, hi, nr, reach):
        yield ("ops", c)


def text_items(feats, labels, lo, hi):
    for r in c02.body_cases(feats, labels, lo, hi, 3):
        yield ("text", src.render(r))


def compiled_items(feats, labels, lo, hi):
    """routine sets of compiled programs, decompiled"""
    for r in c02.body_cases(feats, labels, lo, hi, 3):
        try:
            rset = iso_compiled(src.render(r))
        except Exception:
            continue
        yield ("set", rset)


def iso_compiled(text):
    return ssb.canon_compiled(ssb.compile_text(text))


def run_compiled(case, rec, order=None):
    """compile in a child, go on with the routine sets"""
    bodies = case

    def comp():
        out = []
        for r in bodies:
            try:
                rs = iso_compiled(src.render(r))
                if ssb.well_formed(rs[1], True):
                    out.append(("set", rs))
            except Exception:
                pass
        return tuple(out)

    items = iso.in_child(comp)
    if not items:
        return
    if order is None:
        run_batch(items, rec)
    else:
        run_orders((order, items), rec)


def spaces(tier):
    q = tier == "quick"
    references()
    S = runner.Space

    def mixed(n):
        def g():
            yield from batches(ops_items("orbj", 1, 4), n)
            yield from batches(ops_items("SKorj", 2, 4 if q else 5), n)
            yield from batches(ops_items("orbj", 2, 3 if q else 4, 2), n)
            yield from batches(text_items("orhlcjinxsdfwF", ("a",), 1, 3), n)
            if not q:
                yield from batches(ops_items("orbj", 5, 5, reach=5), n)

        return g

    def bodies(feats, labels, lo, hi, n):
        return lambda: batches(c02.body_cases(feats, labels, lo, hi, 3), n)

    def texts():
        for n, (files, main, ppl, macros_only, rel) in events.COMPILES.items():
            if len(files) == 1 and not macros_only:
                yield ("text", files[main])
        for ms, rs in islice(macros.graph_programs(3), 0, None):
            yield ("text", src.render({"macros": ms, "routines": rs}))

    def sets():
        for n, r in events.DECOMPILES.items():
            yield ("set", r)

    # the first "reuse"/"same-objects" is the same as "compile"/"decompile"
    evs = [e for e in EVENTS if not q or e[0] not in ("compile", "decompile") or e[1].startswith("ppl") or e in events.CORE]

    def orders():
        d = 2
        yield from ((d, b) for b in batches(sets(), 4))
        yield from ((d, b) for b in batches(texts(), 20))
        yield from ((1, b) for b in batches(ops_items("orbj", 1, 4), 150))
        yield from ((1, b) for b in batches(ops_items("SKorj", 2, 4), 150))

    out = [
        S("fresh", lambda: iter(EVENTS), run_fresh, f"every call alone in fresh interpreters with hash seeds {SEEDS}, and in another process", timeout=60),
        S("pairs", lambda: product(evs, evs), run_history, f"all histories of 2 of {len(evs)} calls; the state of the package after each is compared with the states after single calls, new states are extended by every call", chunk=16, timeout=120),
        S("triples", lambda: product(events.CORE[: 13 if q else None], repeat=3), run_history, "all histories of 3 calls of the core alphabet (quick: 13 calls, thorough: 20)", chunk=16, timeout=60),
        S("long", mixed(100), run_batch, "enumerated op lists and bodies in histories of 100 calls, in order and in reverse order; same objects and same decompiler again", chunk=1, timeout=100),
        S("long-compiled", bodies("orixfwFsn", (), 1, 4 if not q else 3, 100), run_compiled, "the same for the compiled forms of all bodies with loops, switches and conditions", chunk=1, timeout=100),
        S("orders", orders, run_orders, "all orders of unordered sets with up to 1 (enumerated op lists) / 2 (alphabet) deviations, ids reused", chunk=1, timeout=250),
        S("orders-compiled", bodies("orixfwFs", (), 1, 3 if q else 4, 60), lambda c, r: run_compiled(c, r, 1), "the same with 1 deviation for the compiled forms of all bodies", chunk=1, timeout=250),
    ]
    if not q:
        out += [
            S("quads", lambda: product(events.CORE[:11], repeat=4), run_history, "all histories of 4 calls over 11 of the core alphabet", chunk=16, timeout=60),
            S("alone", mixed(50), run_alone, "enumerated inputs alone in a process vs. in one process", chunk=1, timeout=100),
        ]
    return out


def main_reference():
    iso.preload()
    out = {}
    for ev in EVENTS:
        o, _, _ = alone(ev)
        out[json.dumps(ev)] = (o, None)
    os.write(1, json.dumps(out).encode())


if __name__ == "__main__":
    if "--reference" in sys.argv:
        main_reference()
    else:
        from mc.checks import c11

        sys.exit(runner.main(c11))
