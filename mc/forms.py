"""Exhaustive lists of statement / condition / header forms, and contexts to put them in."""
from __future__ import annotations

from itertools import product

from mc.src import COND_OPS, CALC_OPS, C, I
from mc.ssb import PPL

V = C("$V")
VARS = (C("$V"), C(PPL), C("VARNAME"), I(3), ("f", "1.5"))
VALS = (I(4), I(-2), C("VALNAME"), C("$W"), ("f", "-0.25"))


def conditions():
    for var, op, v, isv in product(VARS, COND_OPS, VALS, (False, True)):
        yield ("cmp", var, op, v, isv)
    for var, idx in product(VARS, (I(0), I(1), I(15))):
        yield ("bit", 0, var, idx)
    for idx in (I(0), I(1), I(15)):
        yield ("bit", 1, C(PPL), idx)
    for kw, neg in product(("debug", "edit", "variation"), (0, 1)):
        yield ("kw", neg, kw)
    for var, op, a, b in product(VARS, ("==", ">=", "<=", ">", "<"), (I(0), I(7)), (I(0), I(-1))):
        yield ("scn", var, op, a, b)
    from mc.ssb import BRANCH_OPS

    for name in sorted(BRANCH_OPS):
        for args in ((), (I(1),), (C("$A"), I(2)), (C("$A"), I(2), C("B"))):
            yield ("cop", name, args)


def o(i, *args):
    return ("op", f"o{i}", tuple(args), None)


def q(i):
    return ("cmp", C("$Q"), "==", I(i), False)


def cond_contexts(c):
    """Bodies that use condition c in every place a condition can be."""
    yield "if", (("if", ((0, (c,), (o(1),)),), None), o(2))
    yield "if not", (("if", ((1, (c,), (o(1),)),), None), o(2))
    yield "if else", (("if", ((0, (c,), (o(1),)),), (o(3),)), o(2))
    yield "if not else", (("if", ((1, (c,), (o(1),)),), (o(3),)), o(2))
    yield "or left", (("if", ((0, (c, q(1)), (o(1),)),), None), o(2))
    yield "or right", (("if", ((0, (q(1), c), (o(1),)),), (o(3),)), o(2))
    yield "not or", (("if", ((1, (q(1), c), (o(1),)),), None), o(2))
    yield "elseif", (("if", ((0, (q(1),), (o(1),)), (0, (c,), (o(3),))), None), o(2))
    yield "elseif not", (("if", ((0, (q(1),), (o(1),)), (1, (c,), (o(3),))), (o(4),)), o(2))
    yield "not elseif or", (("if", ((1, (q(1),), (o(1),)), (0, (c, q(2)), (o(3),))), None), o(2))
    yield "while", (("while", 0, c, (o(1),)), o(2))
    yield "while not", (("while", 1, c, (o(1),)), o(2))
    yield "for", (("for", o(3), c, o(4), (o(1),)), o(2))
    yield "jump only", (("label", "a"), o(1), ("if", ((0, (c,), (("jump", "a"),)),), None), o(2))
    yield "not jump only", (("label", "a"), o(1), ("if", ((1, (c,), (("jump", "a"),)),), None), o(2))


def assignments():
    for var, op, v, isv in product(VARS, CALC_OPS, VALS, (False, True)):
        yield ("assign", "set", var, op, v, isv)
    for var, idx, v in product(VARS, (I(0), I(15)), (I(0), I(1), C("X"))):
        yield ("assign", "bit", var, idx, v)
    for k, v in product(("clear", "init", "reset", "adv"), VARS):
        yield ("assign", k, v)
    yield ("assign", "reset", None)
    for a, b in product(VARS, VALS):
        yield ("assign", "dmode", a, b)
    for a, x, y in product(VARS, (I(0), I(7)), (I(0), I(-1))):
        yield ("assign", "scn", a, x, y)


POS = ("p", "mark", 0, 2, 4, 5)
STR = ("s", "a 'text'")
LSTR = ("l", (("english", "hello"), ("french", "salut")))
ARGS = (I(1), I(-7), C("CONST"), C("$VAR"), ("f", "2.5"), STR, LSTR, POS)


def simple_statements():
    yield from assignments()
    for a in ARGS:
        yield ("op", "oa", (a,), None)
    for a, b in product(ARGS, ARGS):
        yield ("op", "oa", (a, b), None)
    yield ("op", "oa", (), None)
    yield ("op", "oa", (I(1), I(2), I(3), I(4), I(5)), None)
    for k in ("ret", "end", "hold"):
        yield (k,)
    for name in ("Return", "End", "Hold", "Destroy", "JumpCommon", "lives", "object", "performer", "Switch", "back_SetGround"):
        yield ("op", name, (I(1),), None)


def stmt_contexts(s):
    yield "plain", (o(1), s, o(2))
    for kind in ("actor", "object", "performer"):
        for tgt in (I(3), C("ACTOR_X"), C("$T")):
            yield f"with {kind}", (o(1), ("with", kind, tgt, s), o(2))
            if s[0] == "op":
                yield f"inline {kind}", (o(1), ("op", s[1], s[2], (kind, tgt)), o(2))
    yield "if", (("if", ((0, (q(1),), (s,)),), (o(3),)), o(2))
    yield "if not last", (("if", ((1, (q(1),), (o(1), s)),), (s,)),)
    yield "case", (("switch", ("var", C("$X")), ((("v", I(1)), (s,)), (("v", I(2)), (o(1), ("break",))), (None, (s,)))), o(2))
    yield "for", (("for", s, q(1), s, (o(1),)), o(2))
    yield "while", (("while", 0, q(1), (s,)), o(2))
    yield "forever", (("forever", (("if", ((0, (q(1),), (("break_loop",),)),), None), s)), o(2))


def ctx_end_programs():
    """An ending op run by another entity (with-block or inline), as the last statement of every kind of block, twice."""
    brk = ("if", ((0, (q(9),), (("break_loop",),)),), None)
    for kind, tgt in product(("actor", "object", "performer"), (I(0), C("ACTOR_X"))):
        sts = [("with", kind, tgt, e) for e in (("ret",), ("end",), ("hold",), ("op", "Destroy", (), None))]
        sts += [("op", "Destroy", (), (kind, tgt)), ("op", "End", (), (kind, tgt))]
        for s in sts:
            for body in ((s,), (o(1), s), (s, s), (s, o(1))):
                yield (("if", ((0, (q(1),), body),), None), o(2))
                yield (("if", ((1, (q(1),), body),), None), o(2))
                yield (("if", ((0, (q(1),), body),), (o(3),)), o(2))
                yield (("if", ((0, (q(1),), (o(3),)),), body), o(2))
                yield (("if", ((0, (q(1),), body), (0, (q(2),), body)), body), o(2))
                yield (("if", ((1, (q(1),), (o(3),)), (1, (q(2),), body)), None), o(2))
                yield (("switch", ("var", V), ((("v", I(1)), body), (("v", I(2)), (o(3),)))), o(2))
                yield (("switch", ("var", V), ((("v", I(1)), body + (("break",),)), (("v", I(2)), body), (None, body))), o(2))
                yield (("switch", ("var", V), ((None, body), (("v", I(2)), (o(3),)))), o(2))
                yield (("while", 0, q(1), body), o(2))
                yield (("for", o(3), q(1), o(4), body), o(2))
                yield (("forever", (brk,) + body), o(2))
                yield body + (o(2),)
                yield body
                yield (("label", "a"),) + body + (("if", ((0, (q(1),), (("jump", "a"),)),), None), o(2))
                yield body + (("jump", "z"), o(3), ("label", "z"), o(2))


def headers():
    for v in VARS:
        yield ("var", v)
        yield ("scn", v, 0)
        yield ("scn", v, 1)
        yield ("rnd", v)
        yield ("dm", v)
    yield ("sector",)
    for name in ("ProcessSpecial", "message_Menu", "SwitchValue", "SwitchSomething"):
        for args in ((), (I(1),), (I(1), C("X"), STR)):
            yield ("hop", name, args)


def case_heads(vals=VALS):
    for v in vals:
        yield ("v", v)
        yield ("menu2", v)
    for op, v, isv in product(COND_OPS, vals, (False, True)):
        yield ("cop", op, v, isv)
    yield ("menu", STR)
    yield ("menu", LSTR)


def switch_programs(pair_vals=VALS):
    rep = (("v", I(7)), ("cop", ">", I(8), False), ("menu2", C("M")), None)
    for h in headers():
        for c in case_heads():
            yield (("switch", h, ((c, (o(1), ("break",))),)), o(2))
    for h in (("var", V), ("scn", V, 0), ("sector",)):
        for c in case_heads(pair_vals):
            for r in rep:
                for first in (0, 1):
                    for b1, b2 in product(((), (o(1),), (o(1), ("break",)), (("break",),), (("ret",),)), ((o(3),), (o(3), ("break",)), (("break",),))):
                        a, b = (c, r) if first else (r, c)
                        yield (("switch", h, ((a, b1), (b, b2))), o(2))


SHAPE_BLOCKS = ((), (0,), (0, ("break",)), (("break",),), (("ret",),))


def switch_shapes(n, blocks=SHAPE_BLOCKS):
    """Every switch of 1..n cases: default at every place or missing, every choice of blocks (none, op, op and break, break, return)."""
    for k in range(1, n + 1):
        for d in (None, *range(k)):
            for bs in product(blocks, repeat=k):
                if not bs[-1]:
                    continue
                cs = tuple((None if i == d else ("v", I(i + 1)), tuple(o(i + 3) if x == 0 else x for x in b)) for i, b in enumerate(bs))
                yield (("switch", ("var", V), cs), o(2))


def mswitch_programs():
    for kind, var in product(("Talk", "Monologue"), VARS):
        texts = (STR, LSTR)
        yield (("mswitch", kind, var, ()), o(2))
        for h, t in product(VALS, texts):
            yield (("mswitch", kind, var, ((h, t),)), o(2))
            yield (("mswitch", kind, var, ((None, t),)), o(2))
            for t2 in texts:
                yield (o(1), ("mswitch", kind, var, ((h, t), (None, t2))), o(2))
                yield (o(1), ("mswitch", kind, var, ((None, t2), (h, t))), o(2))
                for h2 in VALS:
                    yield (("mswitch", kind, var, ((h, t), (h2, t2), (None, t))), o(2))


# ---- routine tables ---------------------------------------------------------------------------------------
def routine_programs(n):
    """All programs of n routines over kinds x bodies x textual orders."""
    bodies = (
        (o(1),),
        (("ret",),),
        (("label", "a"), o(1)),
        (o(1), ("label", "a")),
        (o(1), ("jump", "a")),
        (o(1), ("call", "a"), o(2)),
        (("if", ((0, (q(1),), (("jump", "a"),)),), (o(2),)),),
        "alias",
    )
    kinds = (("generic", None), ("actor", 0), ("actor", "ACTOR_A"), ("object", 5), ("object", "OBJECT_A"), ("performer", 1), ("performer", "PERF_A"))
    from itertools import permutations

    def number(bs):
        out = []
        for i, b in enumerate(bs):
            if b == "alias":
                out.append(b)
                continue

            def go(x):
                if isinstance(x, tuple):
                    if len(x) == 4 and x[0] == "op":
                        return ("op", f"r{i}{x[1]}", x[2], x[3])
                    return tuple(go(y) for y in x)
                return x

            out.append(go(b))
        return out

    from mc.gen import labels_ok

    kk = kinds if n <= 2 else kinds[:2] + kinds[4:5]
    for bs in product(bodies, repeat=n):
        if bs[0] == "alias" or not labels_ok(tuple(b for b in bs if b != "alias")):
            continue
        for ks in product(kk, repeat=n):
            rs = [(k[0], i, k[1], None, b) for i, (k, b) in enumerate(zip(ks, number(bs)))]
            for perm in permutations(range(n)):
                yield tuple(rs[j] for j in perm)
        yield tuple(("coro", i, None, f"CORO_{i}", b) for i, b in enumerate(number(bs)))
        if n >= 2:
            yield tuple(
                ("generic", i, None, None, b) if i % 2 == 0 else ("coro", i, None, f"CORO_{i}", b) for i, b in enumerate(number(bs))
            )
