"""C06: the decompiler always answers; its SsbScript fallback is marked and exact.

Every routine set of the enumerated spaces is really decompiled. No exception; a text that starts with the marker line
must compile (ExplorerScript compiler) to exactly the input; any other text must be readable as ExplorerScript.
"""
from __future__ import annotations

import sys
from itertools import combinations, product

from mc import forms, gen, reader, runner, src, ssb
from mc.checks import c02, c07
from mc.src import C, I

PROPERTY = "C06"
MARKER = "//?: is-ssb-script: true"
ASSUMPTIONS = [
    "names of opcodes that are keywords of SsbScript have no spelling in the language",
    "a fixed-arity operation with operands its encoding has no room for must be answered; that its structured text is readable is only demanded of the others",
]
GEN = ("generic", None, None)


def check_answer(rset, rec, case, key=None, start=1, gaps=(), readable=None):
    from explorerscript.source_map import SourceMap

    infos, ops = rset
    key = key or (c02.show_infos(infos) + ssb.show_ops(ops))
    try:
        text, sm = ssb.decompile(rset, start, gaps)
    except Exception as e:
        rec.violation("exception", key, f"{type(e).__name__}: {e}", case)
        return None
    rec.states(sum(map(len, ops)))
    rec.trace()
    if not isinstance(text, str) or not isinstance(sm, SourceMap):
        rec.violation("no-text", key, f"{type(text)} {type(sm)}", case)
        return None
    if text.startswith("//?:"):
        rec.outcome("fallback")
        if text.split("\n")[0] != MARKER:
            rec.violation("marker", key, text[:100], case)
            return None
        try:
            c = ssb.compile_text(text)
            got = ssb.canon_compiled(c)
        except Exception as e:
            rec.violation("fallback-rejected", key, f"{type(e).__name__}: {e}\n{text}", case)
            return None
        d = c07.diff(rset, got)
        if d:
            rec.violation("fallback-differs", key, f"{d}\n{text}", case)
            return None
        return text
    rec.outcome("structured")
    if readable if readable is not None else ssb.proper(ops):
        try:
            prog, _ = reader.read(text)
            n, ents, infos3 = src.meaning(prog["routines"])
        except reader.ReadError as e:
            rec.violation("unreadable", key, f"{e}\n{text}", case)
            return None
        except src.Meaningless as e:
            rec.violation("unreadable", key, f"meaningless: {e}\n{text}", case)
            return None
        if infos3 != infos:
            rec.violation("tables", key, f"{infos3}\n{text}", case)
            return None
    return text


# ---- op lists ------------------------------------------------------------------------------------------------------
LET = {
    "r": ("Return", ()), "e": ("End", ()), "h": ("Hold", ()), "x": ("lives", (I(0),)), "t": ("object", (I(0),)),
    "j": ("Jump", ()), "c": ("Call", ()), "S": ("Switch", (C("$X"),)), "T": ("CaseText", (I(1), ("s", "text"))),
    "D": ("DefaultText", (("s", "text"),)), "M": ("message_SwitchTalk", (C("$M"),)), "N": ("message_SwitchMenu", (I(0), I(1))),
}


def realize(lst, cuts=()):
    pos = []
    r = o = 0
    for i in range(len(lst)):
        if i in cuts:
            r += 1
            o = 0
        pos.append((r, o))
        o += 1
    out = [[] for _ in range(len(cuts) + 1)]
    for i, (a, t) in enumerate(lst):
        tgt = pos[t] if t is not None else None
        if a == "o":
            op = (f"o{i}", (), None)
        elif a == "b":
            op = ("Branch", (C("$V"), I(i)), tgt)
        elif a == "K":
            op = ("Case", (I(i),), tgt)
        elif a == "m":
            op = ("CaseMenu", (("s", f"m{i}"),), tgt)
        else:
            op = LET[a] + (tgt,)
        out[pos[i][0]].append(op)
    return tuple(GEN for _ in out), tuple(tuple(x) for x in out)


def lists(alphabet, lo, hi, nr=1, must=None):
    """Every op list, any succession of ops; last ops of routines end the flow."""
    for n in range(lo, hi + 1):
        for cuts in combinations(range(1, n), nr - 1):
            for ls in product(alphabet, repeat=n):
                if ls[-1] not in "rehj" or any(ls[c - 1] not in "rehj" for c in cuts):
                    continue
                if must and not any(x in must for x in ls):
                    continue
                js = [i for i, a in enumerate(ls) if a in "bjcKm"]
                for ts in product(range(n), repeat=len(js)):
                    t = dict(zip(js, ts))
                    lst = tuple((a, t.get(i)) for i, a in enumerate(ls))
                    if not ssb.well_formed(realize(lst, cuts)[1]):
                        continue
                    yield lst, cuts


def run_lists(case, rec):
    lst, cuts = case
    t = check_answer(realize(lst, cuts), rec, case, readable=True)
    if t and not rec.samples:
        rec.sample(t)


def list_space(name, alphabet, lo, hi, nr=1, must=None):
    return runner.Space(
        name, lambda: lists(alphabet, lo, hi, nr, must), run_lists,
        f"all well-formed routine sets of {nr} routine(s), {lo}..{hi} ops over '{alphabet}' in any succession, every choice of jump targets", chunk=64, timeout=5,
    )


# ---- operands --------------------------------------------------------------------------------------------------------
POOL = (I(0), I(1), I(7), I(99), I(-1), C("$V"), C(ssb.PPL), C("CONST"), ("f", "1.5"), ("s", "t"), ("l", (("english", "t"),)), ("p", "m0", 0, 2, 3, 4))


def operand_cases(q):
    end = ("Return", (), None)
    for name, shape in sorted(ssb.SHAPES.items()):
        pools = POOL if len(shape) < 3 or not q else POOL[::2]
        jump = name in ssb.JUMP_OPS
        for k in sorted({len(shape)} if jump else {len(shape), 0, 1, 2, 3, 4} if not q else {len(shape), max(0, len(shape) - 1), len(shape) + 1}):
            if k > 3:
                pools = POOL[::4]
            for ps in product(pools, repeat=k):
                op = (name, ps, (0, 2) if jump else None)
                if name in ssb.CASE_OPS:
                    for sw in (("Switch", (C("$X"),)), ("message_SwitchMenu", (I(0), I(1))), ("SwitchDungeonMode", (I(2),)), ("SwitchScenario", (C("$X"),))):
                        yield (GEN,), ((sw + (None,), (name, ps, (0, 3)), ("a", (), None), ("b", (), None), end),)
                elif name in ("CaseText", "DefaultText"):
                    yield (GEN,), ((("message_SwitchTalk", (C("$M"),), None), op, ("a", (), None), end),)
                    yield (GEN,), ((("message_SwitchTalk", (C("$M"),), None), op, op, end),)
                elif name in ssb.CTX_OPS:
                    yield (GEN,), ((op, ("a", (), None), end),)
                    yield (GEN,), ((op, ("a", (I(1), ("s", "x")), None), ("b", (), None), end),)
                    yield (GEN,), ((op, ("flag_Set", (C("$A"), I(1)), None), ("b", (), None), end),)
                elif "Switch" in name:
                    yield (GEN,), ((op, ("Case", (I(1),), (0, 3)), ("a", (), None), ("b", (), None), end),)
                    yield (GEN,), ((op, ("a", (), None), ("b", (), None), end),)
                    yield (GEN,), ((op, ("CaseText", (I(1), ("s", "x")), None), ("b", (), None), end),)
                elif name in ("Jump", "Call"):
                    yield (GEN,), ((("a", (), None), op, ("b", (), None), end),)
                else:
                    yield (GEN,), ((op, ("a", (), None), ("b", (), None), end),)
                    if jump:
                        # a loop and a backwards jump
                        yield (GEN,), ((("a", (), None), (name, ps, (0, 0)), end),)
    for ps in product(POOL, repeat=2):
        for name in ("message_Talk", "Null", "message_SwitchMenu", "message_SwitchMenu2", "ProcessSpecial", "SwitchValue", "SwitchVariable", "SwitchDirection", "SwitchDirectionLives", "SwitchLives"):
            yield (GEN,), (((name, ps, None), ("Case", (I(1),), (0, 3)), ("a", (), None), ("b", (), None), end),)
            yield (GEN,), (((name, ps, None), ("Case", (I(1),), (0, 3)), ("CaseMenu", (("s", "x"),), (0, 4)), ("b", (), None), end),)


def run_set(case, rec):
    t = check_answer(case, rec, case)
    if t and not rec.samples:
        rec.sample(t)


# ---- tables ----------------------------------------------------------------------------------------------------------
def table_cases(n):
    kinds = [("generic", None), ("actor", 0), ("actor", 65535), ("actor", "ACTOR_A"), ("object", 5), ("object", "OBJ"), ("performer", 1), ("performer", "PERF"), ("coro", None)]
    bodies = ("op", "jump0", "empty", "branch", "case")
    for ks in product(kinds, repeat=n):
        for bs in product(bodies, repeat=n):
            if bs[0] == "empty":
                continue
            infos = tuple((k, t, f"CORO_{i}" if k == "coro" else None) for i, (k, t) in enumerate(ks))
            ops = []
            for i, b in enumerate(bs):
                if b == "op":
                    ops.append(((f"o{i}", (), None), ("Return", (), None)))
                elif b == "jump0":
                    ops.append(((f"o{i}", (), None), ("Jump", (), (0, 0))))
                elif b == "branch":
                    ops.append((("Branch", (C("$V"), I(1)), (0, 0)), (f"o{i}", (), None), ("Return", (), None)))
                elif b == "case":
                    # a case without its switch: not structured ExplorerScript
                    ops.append((("Case", (I(1),), (i, 1)), (f"o{i}", (), None), ("Return", (), None)))
                else:
                    ops.append(())
            if not ssb.well_formed(ops):
                continue
            yield infos, tuple(ops)


def run_numbered(case, rec):
    rset, start, gaps = case
    check_answer(rset, rec, case, start=start, gaps=gaps)


def numbered_cases():
    a = (("o", (), None), ("Branch", (C("$V"), I(1)), (0, 3)), ("Jump", (), (1, 1)), ("Return", (), None))
    b = (("p", (), None), ("Call", (), (0, 3)), ("Case", (I(1),), (0, 1)), ("End", (), None))
    b2 = (("p", (), None), ("Call", (), (0, 3)), ("q", (), None), ("End", (), None))
    n = 8
    for x in (b, b2):
        for start in (0, 1, 2, 100, 65000):
            for k in range(n + 1):
                for gaps in combinations(range(n), k):
                    if k > 3 and k < n:
                        continue
                    yield ((GEN, GEN), (a, x)), start, gaps


# ---- large sets --------------------------------------------------------------------------------------------------------
def nested_ifs(n, els=False):
    head, tail = [], []
    for i in range(n):
        head.append(f"if ($A == {i}) {{ a{i}();")
        tail.append("}" + (f" else {{ b{i}(); }}" if els else ""))
    return "def 0 {" + "\n".join(head) + "\n".join(tail) + " end; }"


def large_sources(q):
    big = (50, 150) if q else (50, 150, 400)
    for n in (20, 60) if q else (20, 60, 120, 200):
        yield f"nested ifs {n}", nested_ifs(n)
        yield f"nested if-else {n}", nested_ifs(n, True)
        yield f"nested loops {n}", "def 0 {" + "\n".join("forever { a();" for _ in range(n)) + " b(); " + "break_loop; }" * n + " end; }"
        yield f"nested switches {n}", "def 0 {" + "\n".join(f"switch ($A) {{ case {i}: a{i}();" for i in range(n)) + " b(); " + "break; default: c(); }" * n + " end; }"
        yield f"elseif chain {n}", "def 0 { if ($A == 0) { a(); }" + "\n".join(f"elseif ($A == {i}) {{ a{i}(); }}" for i in range(1, n)) + " else { z(); } end; }"
        yield f"or chain {n}", "def 0 { if (" + " || ".join(f"$A == {i}" for i in range(n)) + ") { a(); } end; }"
    for n in big:
        yield f"ops {n}", "def 0 {" + "\n".join(f"o{i}();" for i in range(10 * n)) + " end; }"
        yield f"sequential ifs {n}", "def 0 {" + "\n".join(f"if ($A == {i}) {{ a{i}(); }} else {{ b{i}(); }}" for i in range(n)) + " end; }"
        yield f"sequential loops {n}", "def 0 {" + "\n".join(f"while ($A == {i}) {{ a{i}(); }}" for i in range(n)) + " end; }"
        yield f"cases {n}", "def 0 { switch ($A) {" + "\n".join(f"case {i}: a{i}(); break;" for i in range(n)) + "default: d(); } end; }"
        yield f"fallthrough cases {n}", "def 0 { switch ($A) {" + "\n".join(f"case {i}: a{i}();" for i in range(n)) + "default: d(); } end; }"
        yield f"empty cases {n}", "def 0 { switch ($A) {" + "\n".join(f"case {i}:" for i in range(n)) + " a(); break; default: d(); } end; }"
        yield f"message cases {n}", "def 0 { message_SwitchTalk ($A) {" + "\n".join(f"case {i}: 'x{i}'" for i in range(n)) + "default: 'd' } end; }"
        yield f"jumps {n}", "def 0 {" + "\n".join(f"@l{i}; o{i}(); if ($A == {i}) {{ jump @l{(7 * i + 3) % n}; }}" for i in range(n)) + " end; }"
        yield f"calls {n}", "def 0 {" + "\n".join(f"@l{i}; o{i}(); call @l{(7 * i + 3) % n};" for i in range(n)) + " end; }"
        yield f"routines {n}", "\n".join(f"def {i} {{ if ($A == {i}) {{ a{i}(); }} else {{ b{i}(); }} end; }}" for i in range(n))
        yield f"returns {n}", "def 0 {" + "\n".join(f"if ($A == {i}) {{ a{i}(); return; }}" for i in range(n)) + " end; }"


def large_sets(q):
    """Op sets in which every branch leads anywhere."""
    end = ("End", (), None)
    for n in (30, 100) if q else (30, 100, 300):
        for mul, add in ((1, 2), (3, 1), (n - 1, 0), (7, 5)):
            for every in (2, 3):
                ops = []
                for i in range(n):
                    if i % every == 0:
                        ops.append(("Branch", (C("$V"), I(i)), (0, (i * mul + add) % (n + 1))))
                    else:
                        ops.append((f"o{i}", (), None))
                yield f"ring {n} {mul} {add} {every}", ((GEN,), (tuple(ops) + (end,),))
        yield f"all to the end {n}", ((GEN,), (tuple(("Branch", (C("$V"), I(i)), (0, n)) for i in range(n)) + (end,),))
        yield f"all to the start {n}", ((GEN,), (tuple(("Branch", (C("$V"), I(i)), (0, 0)) for i in range(n)) + (end,),))
        yield f"jump chain {n}", ((GEN,), (tuple(("Jump", (), (0, i + 1)) for i in range(n)) + (end,),))
        yield f"jump chain backwards {n}", ((GEN,), ((("Jump", (), (0, n)),) + (end,) + tuple(("Jump", (), (0, i - 1)) for i in range(2, n + 1)),))


def run_large(case, rec):
    what, text = case
    if isinstance(text, str):
        rset = ssb.canon_compiled(ssb.compile_text(text))
    else:
        rset = text
    check_answer(rset, rec, case, key=what, readable=False)


def large_cases(q):
    yield from large_sources(q)
    yield from large_sets(q)


def run_prog(routines, rec):
    text = src.render(routines)
    try:
        rset = ssb.canon_compiled(ssb.compile_text(text))
    except Exception:
        rec.outcome("source rejected")
        return
    if not ssb.well_formed(rset[1], True) or any(len(ps) != len(ssb.SHAPES[n]) for r in rset[1] for n, ps, t in r if n in ssb.JUMP_OPS):
        rec.outcome("not well-formed")
        return
    # what falls off the end of a routine ends there
    ops = tuple(r if not r or r[-1][0] in ssb.END_OPS | {"Jump"} else r + (("Return", (), None),) for r in rset[1])
    check_answer((rset[0], ops), rec, routines, key=text)


def spaces(tier):
    q = tier == "quick"
    sp = [
        list_space("any1-4", "orbjcSK", 1, 4),
        list_space("ends", "orehxtj", 1, 4),
        list_space("message", "orMTDSKNm", 2, 4, must="MTDN"),
        list_space("any2", "orbjSK", 2, 4, nr=2),
        list_space("any3", "orj", 3, 5, nr=3),
        runner.Space("operands", lambda: operand_cases(q), run_set, "every fixed-arity op with every combination of operands of all parameter types, known and unknown switches", chunk=64, timeout=5),
        runner.Space("tables", lambda: (x for n in (1, 2) for x in table_cases(n)), run_set, "routine tables of 1..2 routines over kinds x targets x bodies", chunk=64, timeout=5),
        runner.Space("numbering", numbered_cases, run_numbered, "offset numberings: start x gaps", chunk=32, timeout=5),
        runner.Space("large", lambda: large_cases(q), run_large, "nested / sequential / jumping sets of up to some hundred ops", chunk=1, timeout=120),
        runner.Space("forms", lambda: c02.form_cases(True), run_prog, "compile results of every condition/statement/switch form", chunk=64, timeout=5),
    ]
    if not q:
        sp += [
            list_space("any5", "orbjSK", 5, 5),
            list_space("any2-5", "obrj", 5, 5, nr=2),
            runner.Space("tables3", lambda: table_cases(3), run_set, "routine tables of 3 routines", chunk=64, timeout=5),
        ]
    return sp


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
