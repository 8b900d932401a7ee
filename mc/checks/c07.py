"""C07: SsbScript is a lossless spelling of SSB ops.

Every routine set of the enumerated spaces is really decompiled with the SsbScript decompiler and the text really compiled
with the SsbScript compiler; the result must be the same routine set, op for op (offsets may be renumbered, every jump
parameter must denote the corresponding op).
"""
from __future__ import annotations

import sys
from itertools import combinations, product

from mc import forms, gen, runner, src, ssb
from mc.src import C, I

PROPERTY = "C07"
ASSUMPTIONS = [
    "names of opcodes, constants, coroutines and languages are identifiers and no keywords of SsbScript (def, coro, alias, previous, for, for_actor, for_object, for_performer, Position): the language has no spelling for others",
    "jump-carrying operations have as many other parameters as the encoding has (mc/ssb.py SHAPES)",
    "the first routine has at least one op (an alias has to follow the routine it is an alias of)",
]

ARITY = {n: len(ssb.SHAPES[n]) for n in sorted(ssb.JUMP_OPS)}


def decompile_ssbs(rset, start=1, gaps=()):
    from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

    rinfos, rops, coros = ssb.build(rset, start, gaps)
    return SsbScriptSsbDecompiler(rinfos, rops, coros).convert()


def compile_ssbs(text):
    from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler

    c = SsbScriptSsbCompiler()
    c.compile(text)
    return c


def exact(rset):
    """For comparison: fixed points and offsets as they are, jump targets by position."""
    return rset


def diff(a, b):
    if a[0] != b[0]:
        return f"routine table {b[0]}"
    if len(a[1]) != len(b[1]):
        return f"{len(b[1])} routines instead of {len(a[1])}"
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        for j in range(max(len(x), len(y))):
            p, q = x[j] if j < len(x) else None, y[j] if j < len(y) else None
            if p != q:
                return f"op {i}.{j}: {q} instead of {p}"
    return None


def check(rset, rec, start=1, gaps=(), case=None):
    key = repr(rset)
    try:
        text, sm = decompile_ssbs(rset, start, gaps)
    except Exception as e:
        rec.violation("decompile", key, f"{type(e).__name__}: {e}")
        return
    try:
        c = compile_ssbs(text)
        got = ssb.canon_compiled(c)
        n = (len(c.routine_infos), len(c.routine_ops), len(c.named_coroutines))
    except Exception as e:
        rec.violation("compile", key, f"{type(e).__name__}: {e}\n{text}")
        return
    rec.states(sum(map(len, rset[1])))
    rec.trace()
    d = diff(rset, got)
    if d:
        rec.violation("differs", key, f"{d}\n{text}")
    elif len(set(n)) != 1:
        rec.violation("differs", key, f"table lengths {n}")
    if not rec.samples:
        rec.sample(text)


def run(case, rec):
    if len(case) == 4:
        rset = (case[0], case[1])
        check(rset, rec, case[2], case[3])
    else:
        check(case, rec)


# ---- spaces ------------------------------------------------------------------------------------------------------
GEN = ("generic", None, None)
LET = {
    "o": ("o", ()), "r": ("Return", ()), "b": ("Branch", (C("$V"), I(1))), "j": ("Jump", ()), "c": ("Call", ()),
    "S": ("Switch", (C("$S"),)), "K": ("Case", (I(3),)), "x": ("lives", (I(1),)),
}


def op_sets(alphabet, lo, hi, maxr, empties=False):
    """All op lists (not only well-formed ones), every split into routines, every choice of jump targets."""
    for n in range(lo, hi + 1):
        for nr in range(1, maxr + 1):
            cutsets = combinations(range(1, n), nr - 1) if not empties else (
                c for c in product(range(1, n + 1), repeat=nr - 1) if list(c) == sorted(c)
            )
            for cuts in cutsets:
                bounds = (0,) + tuple(cuts) + (n,)
                pos = {}
                for ri in range(nr):
                    for k in range(bounds[ri], bounds[ri + 1]):
                        pos[k] = (ri, k - bounds[ri])
                for letters in product(alphabet, repeat=n):
                    js = [i for i, a in enumerate(letters) if LET[a][0] in ssb.JUMP_OPS]
                    for ts in product(range(n), repeat=len(js)):
                        t = dict(zip(js, ts))
                        ops = []
                        for ri in range(nr):
                            lst = []
                            for k in range(bounds[ri], bounds[ri + 1]):
                                name, ps = LET[letters[k]]
                                if letters[k] == "o":
                                    name = f"o{k}"
                                lst.append((name, ps, pos[t[k]] if k in t else None))
                            ops.append(tuple(lst))
                        yield (tuple(GEN for _ in range(nr)), tuple(ops))


STRINGS = ("", "a", "it's", 'say "x"', "it's \"both\"", "a\nb", "a\n", "\na", " a ", "'''", '"""', "a'''b\nc", 'a"""b\nc', "back\\slash", "\\n", "\\'", "tab\t", "end\\", "a\n  b\n c", "\n\n", "[CN]é", "//", "/* x */", "@label_0", "{}", "\\\\", "x\r", "a\r\nb")
VALUES = (
    tuple(I(n) for n in (0, 1, -1, 255, -32768, 65535, 2**31))
    + tuple(("f", s) for s in ("0.5", "-0.5", "1.0", "-0.0", "12.03125", "0.0", "-3.00390625"))
    + tuple(C(s) for s in ("CONST", "a_b", "$VAR", "_x", "A1", "end", "if", "return", "jump", "value", "not", "TRUE"))
    + tuple(("s", s) for s in STRINGS)
    + tuple(("l", (("english", s), ("french", t))) for s in STRINGS[:14] for t in ("x", "it's", "a\nb"))
    + tuple(("p", n, x, y, a, b) for n in ("m", "it's", "") for x in (0, 2) for y in (0, 2) for a in (0, 7) for b in (0, 12))
    + tuple(("p", "m", x, y, a, b) for x in (0, 2) for y in (0, 2) for a in (-1, -2, 0, 1, 255) for b in (-1, -300, 0, 1))
)


def param_sets(q):
    import mc.ssb as m

    end = ("Return", (), None)
    for v in VALUES:
        for name in ("o", "message_Talk"):
            yield ((GEN,), (((name, (v,), None), end),))
            yield ((GEN,), (((name, (v,), None), (name, (v, v), None), end),))
        yield ((GEN,), (((("Case"), (v,), (0, 0)), end),))
        yield ((GEN,), (((("CaseMenu"), (v,), (0, 1)), end),))
    vs = VALUES if not q else VALUES[::2]
    for a, b in product(vs, vs):
        yield ((GEN,), ((("o", (a, b), None), ("p", (b, I(1), a), None)),))


def name_sets():
    names = ["o", "_x", "X9", "a_B", "message_Talk", "end", "hold", "jump", "call", "if", "else", "elseif", "switch", "case", "default", "break", "break_loop", "continue", "forever", "while", "with", "macro", "import", "not", "value", "actor", "object", "performer", "lives", "position", "menu", "return", "debug", "edit", "variation", "random", "sector", "scn", "dungeon_mode", "clear", "init", "reset", "adventure_log", "message_SwitchTalk", "label_0", "ES_JUMP", "ES_LABEL", "at", "CaseText", "Null", "_", "A" * 60]
    names += sorted(set(ssb.SHAPES) - ssb.JUMP_OPS) + sorted(ssb.END_OPS)
    for n in names:
        for ps in ((), (I(1),), (C("x"), I(-2)), (C(n if n.isidentifier() else "x"),)):
            yield ((GEN,), (((n, ps, None),),))
            yield ((GEN,), (((n, ps, None), ("Jump", (), (0, 0)), (n, ps, None)),))
            yield ((GEN,), ((("Branch", (C("$A"), I(1)), (0, 1)), (n, ps, None)),))
        for k in ("actor", "object", "performer"):
            yield ((("generic", None, None), (k, n, None)), (((n, (), None),), ((n, (), None),)))
        yield ((("coro", None, n), ("coro", None, n + "2")), (((n, (), None),), ((n, (), None),)))


def jump_sets():
    for n, k in ARITY.items():
        for ps in product((I(0), I(7), C("$V"), ("f", "1.5"), ("s", "t")), repeat=k):
            for t in (0, 1, 2):
                yield ((GEN,), ((("a", (), None), (n, ps, (0, t)), ("b", (), None)),))


def tables(n):
    kinds = [("generic", None), ("actor", 0), ("actor", 65535), ("actor", "ACTOR_A"), ("object", 5), ("object", "OBJ"), ("performer", 1), ("performer", "PERF"), ("coro", None)]
    bodies = ("op", "jump0", "empty", "loop")
    for ks in product(kinds, repeat=n):
        for bs in product(bodies, repeat=n):
            if bs[0] == "empty":
                continue
            if n > 2 and bs[1] == bs[2] == "op":
                continue
            infos = tuple((k, t, f"CORO_{i}" if k == "coro" else None) for i, (k, t) in enumerate(ks))
            ops = []
            for i, b in enumerate(bs):
                if b == "op":
                    ops.append(((f"o{i}", (), None), ("Return", (), None)))
                elif b == "jump0":
                    ops.append(((f"o{i}", (), None), ("Jump", (), (0, 0))))
                elif b == "loop":
                    ops.append((("Jump", (), (i, 0)),))
                else:
                    ops.append(())
            yield (infos, tuple(ops))


def numbering():
    base = (("o", (), None), ("Branch", (C("$V"), I(1)), (0, 2)), ("Jump", (), (1, 1)), ("Return", (), None))
    second = (("p", (), None), ("Call", (), (0, 3)), ("q", (), None))
    n = len(base) + len(second)
    for start in (0, 1, 2, 7, 1000):
        for k in range(0, n + 1):
            for gaps in combinations(range(n), k):
                yield ((GEN, GEN), (base, second), start, gaps)


def long_sets():
    for n in (50, 400):
        yield ((GEN,), (tuple(("o", (I(i),), None) for i in range(n)) + (("Jump", (), (0, n // 2)),),))
        yield ((GEN,), (tuple(("Branch", (C("$V"), I(i)), (0, (i * 7) % n)) for i in range(n)),))
        yield (tuple(GEN for _ in range(n)), tuple((("o", (I(i),), None), ("Jump", (), ((i * 3 + 1) % n, 0))) for i in range(n)))


def spaces(tier):
    q = tier == "quick"
    S = runner.Space
    return [
        S("ops", lambda: op_sets("orbj", 1, 3 if q else 4, 2), run, "all lists of 1..%d ops over op/return/branch/jump with all targets, all splits into up to 2 routines (also unreachable ops, jump cycles, ends without terminator)" % (3 if q else 4)),
        S("kinds", lambda: op_sets("orbjcSKx", 1, 2 if q else 3, 2), run, "as ops, with calls, switches, cases and contexts"),
        S("three", lambda: op_sets("oj", 1, 4 if q else 5, 3, True), run, "ops and jumps split into up to 3 routines, also empty ones"),
        S("params", lambda: param_sets(q), run, f"{len(VALUES)} values (integers, fixed points, constants, strings, language strings, position marks) alone and in pairs"),
        S("names", name_sets, run, "opcode, target and coroutine names, also the names of ExplorerScript keywords and special ops"),
        S("jump ops", jump_sets, run, "every jump-carrying opcode with all operand kinds and targets"),
        S("tables", lambda: tables(2), run, "all routine tables of 2 routines over kinds, targets and bodies (also aliases)"),
        S("tables3", lambda: tables(3) if not q else (x for i, x in enumerate(tables(3)) if i % 9 == 0), run, "routine tables of 3 routines" + (" (every 9th)" if q else "")),
        S("numbering", numbering, run, "every gap pattern and several start values of the numbering of a two-routine set"),
        S("long", long_sets, run, "large sets"),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
