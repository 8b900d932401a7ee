"""C13: flat structured programs decompile to structured text: no jump statement, every operation exactly once.

Every flat program of the enumerated spaces is really compiled and decompiled; the text is read with this framework's
own reader. The text must be ExplorerScript (not the SsbScript fallback), contain no jump (or call) statement, and the
multiset of operations, terminators and tests its statements stand for must be that of the source.
"""
from __future__ import annotations

import sys
from collections import Counter
from itertools import chain, product

from mc import deep, gen, forms, reader, runner, src, ssb
from mc.checks.c02 import dm_norm
from mc.src import C, I

PROPERTY = "C13"
ASSUMPTIONS = [
    "each case holds at least its break",
    "menu cases belong to the headers message_SwitchMenu(2), the other cases to the other switch operations of the game",
    "fixed-arity operations have operands of the kinds their encoding has room for (mc/ssb.py SHAPES)",
]

JUMPY = ("jump", "call")


def jumps(x):
    """All jump/call statements of a statement tree."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] in JUMPY and isinstance(x[1], str):
            yield x
            return
        for y in x:
            yield from jumps(y)


def printed(routines):
    """Multiset of the operations, terminators and tests the statements stand for."""
    s = src.Sem()
    c = Counter()
    for r in routines:
        if r[4] == "alias":
            continue
        n = len(s.nodes)
        s.routine(r[4])
        for node in s.nodes[n + 1 :]:  # the first one is the implicit end
            if node[0] in ("op", "test", "end"):
                c[dm_norm(node[1])] += 1
    return c


def run(case, rec):
    routines = case
    text = src.render(routines)
    if not rec.samples:
        rec.sample(text)
    try:
        rset = ssb.canon_compiled(ssb.compile_text(text))
    except Exception as e:
        rec.outcome("source rejected")
        return
    if not ssb.proper(rset[1]):
        rec.outcome("not proper")
        return
    rec.states(sum(map(len, rset[1])))
    try:
        out, sm = ssb.decompile(rset)
    except Exception as e:
        rec.violation("exception", text, f"{type(e).__name__}: {e}")
        return
    rec.trace()
    if out.lstrip().startswith("//?:"):
        rec.violation("fallback", text, out)
        return
    try:
        prog, _ = reader.read(out)
    except reader.ReadError as e:
        rec.violation("unreadable", text, f"{e}\n{out}")
        return
    js = [j for r in prog["routines"] for j in jumps(r[4])]
    if js:
        rec.violation("jump", text, f"{len(js)} jump statements\n{out}")
        return
    try:
        b = printed(prog["routines"])
    except src.Meaningless as e:
        rec.violation("meaningless", text, f"{e}\n{out}")
        return
    a = printed(routines)
    rec.transitions(sum(a.values()))
    if a != b:
        rec.violation("count", text, f"missing {dict(a - b)}, too often {dict(b - a)}\n{out}")


# ---- flat programs -------------------------------------------------------------------------------------------
class Num:
    def __init__(self):
        self.i = 0
        self.c = 0

    def o(self):
        self.i += 1
        return ("op", f"o{self.i}", (), None)

    def q(self):
        self.c += 1
        return ("cmp", C("$V"), "==", I(self.c), False)


def plain(n, kind):
    if kind == "o":
        return n.o()
    if kind == "a":
        return ("assign", "set", C("$A"), "=", I(n.i * 100 + n.c), False)
    if kind == "w":
        return ("with", "actor", I(3), n.o())
    if kind == "i":
        o = n.o()
        return ("op", o[1], (), ("object", I(4)))
    if kind == "m":
        return ("mswitch", "Talk", C("$T"), ((("c", "A"), ("s", "x")), (None, ("s", "y"))))
    raise ValueError(kind)


def realize(items, term):
    """items: 'o'... plain | ('if', ((neg, nconds, block)..), else block | None) | ('sw', ((n heads default?), block)..)."""
    n = Num()
    out = []
    for it in items:
        if isinstance(it, str):
            out.append(plain(n, it))
        elif it[0] == "if":
            arms = []
            for neg, nc, blk in it[1]:
                cs = tuple(n.q() for _ in range(nc))
                arms.append((neg, cs, tuple(plain(n, k) for k in blk)))
            out.append(("if", tuple(arms), tuple(plain(n, k) for k in it[2]) if it[2] is not None else None))
        else:
            cases = []
            for j, (d, blk) in enumerate(it[1]):
                h = None if d else ("v", I(10 + j))
                cases.append((h, tuple(plain(n, k) for k in blk) + (("break",),)))
            out.append(("switch", ("var", C(f"$S{n.i}")), tuple(cases)))
    return tuple(out) + (term,)


def ifs(arms, blocks, negs=(0, 1), conds=(1, 2)):
    for k in range(1, arms + 1):
        for heads in product(product(negs, conds), repeat=k):
            for bl in product(blocks, repeat=k):
                for el in (None,) + tuple(blocks):
                    yield ("if", tuple((h[0], h[1], b) for h, b in zip(heads, bl)), el)


def switches(cases, blocks, default=True):
    for k in range(1, cases + 1):
        for bl in product(blocks, repeat=k):
            for d in range(-1 if True else 0, k if default else 0):
                yield ("sw", tuple((j == d, b) for j, b in enumerate(bl)))


TERMS = (("ret",), ("end",), ("hold",), ("op", "Destroy", (), None), ("op", "JumpCommon", (I(3),), None))


def single(arms, cases, blocks):
    its = list(ifs(arms, blocks)) + list(switches(cases, [()] + list(blocks)))
    for it in its:
        for pre in ((), ("o",)):
            for post in ((), ("o",)):
                for t in TERMS[:2]:
                    yield (("generic", 0, None, None, realize(pre + (it,) + post, t)),)


def sequences(n, menu, terms=TERMS[:1]):
    for k in range(0, n + 1):
        for its in product(menu, repeat=k):
            for t in terms:
                yield (("generic", 0, None, None, realize(its, t)),)


B1 = (("o",),)
B2 = (("o",), ("o", "o"))
MENU = (
    "o",
    ("if", ((0, 1, ("o",)),), None),
    ("if", ((1, 1, ("o",)),), None),
    ("if", ((0, 2, ("o",)),), None),
    ("if", ((1, 2, ("o",)),), None),
    ("if", ((0, 1, ("o",)),), ("o",)),
    ("if", ((1, 2, ("o",)),), ("o",)),
    ("if", ((0, 1, ("o",)), (0, 1, ("o",))), None),
    ("if", ((0, 1, ("o",)), (1, 1, ("o",))), None),
    ("if", ((1, 1, ("o",)), (0, 2, ("o",))), None),
    ("if", ((0, 1, ("o",)), (0, 1, ("o",))), ("o",)),
    ("if", ((0, 2, ("o",)), (1, 1, ("o",))), ("o",)),
    ("sw", ((False, ("o",)),)),
    ("sw", ((True, ("o",)),)),
    ("sw", ((False, ()),)),
    ("sw", ((False, ("o",)), (False, ("o",)))),
    ("sw", ((False, ("o",)), (True, ("o",)))),
    ("sw", ((True, ("o",)), (False, ("o",)))),
    ("sw", ((False, ("o",)), (False, ()), (True, ("o",)))),
)
MENU2 = MENU + (
    ("if", ((0, 1, ()),), None),
    ("if", ((0, 1, ()),), ("o",)),
    ("if", ((0, 2, ("o", "o")), (1, 2, ("o",)), (0, 1, ("o",))), ("o",)),
    ("sw", ((False, ("o",)), (False, ("o", "o")), (False, ("o",)))),
    ("sw", ((False, ("o",)), (True, ("o",)), (False, ("o",)))),
    ("sw", ((False, ()), (False, ("o",)), (False, ()))),
    ("sw", ((True, ()), (False, ("o",)))),
    "m",
    "w",
)
KMENU = ("o", "a", "w", "i", "m", ("if", ((0, 1, ("m",)),), ("w",)), ("if", ((1, 1, ("w",)), (0, 1, ("m",))), ("a",)), ("sw", ((False, ("m",)), (False, ("w",)), (True, ("a",)))), ("sw", ((False, ("w",)),)))


def kinds():
    blocks = [(a,) for a in "oawim"] + [(a, b) for a in "oawim" for b in "oawim"]
    for b in blocks:
        for it in ifs(2, [b]):
            yield (("generic", 0, None, None, realize((it, "o"), TERMS[0])),)
        for it in switches(2, [b]):
            yield (("generic", 0, None, None, realize((it, "o"), TERMS[0])),)
    for t in TERMS:
        for a in list("oawim") + list(MENU[1:]):
            yield (("generic", 0, None, None, realize((a,), t)),)


REGULAR = ("ProcessSpecial", "message_Menu")
MENUS = ("message_SwitchMenu", "message_SwitchMenu2")


def form_cases():
    r = (("ret",),)
    for c in forms.conditions():
        for what, b in forms.cond_contexts(c):
            if what not in ("while", "while not", "for", "jump only", "not jump only"):
                yield (("generic", 0, None, None, b + r),)
    o1, o2 = forms.o(1), forms.o(2)
    for s in forms.simple_statements():
        if s[0] in ("ret", "end", "hold") or s[0] == "op" and s[1] in ssb.END_OPS | ssb.CTX_OPS | {"Switch"}:
            continue
        for what, b in forms.stmt_contexts(s):
            if what in ("for", "while", "forever", "case", "if not last"):
                continue
            yield (("generic", 0, None, None, b + r),)
        yield (("generic", 0, None, None, (("switch", ("var", C("$X")), ((("v", I(1)), (s, ("break",))), (None, (s, ("break",))))), o2) + r),)
    hs = [h for h in forms.headers() if h[0] != "hop" or h[1] in REGULAR]
    hs += [("hop", n, a) for n in ("main_EnterAdventure", "main_EnterRescueUser", "main_EnterTraining", "main_EnterTraining2") for a in ((), (I(1),))]
    hs += [("hop", n, a) for n in MENUS for a in ((), (I(1),), (I(1), C("X")))]
    for h in hs:
        for ch in forms.case_heads():
            if (ch[0] in ("menu", "menu2")) != (h[0] == "hop" and h[1] in MENUS):
                continue
            yield (("generic", 0, None, None, (("switch", h, ((ch, (o1, ("break",))),)), o2) + r),)
    for b in forms.mswitch_programs():
        yield (("generic", 0, None, None, b + r),)


def multi():
    """Two and three routines: every pair of menu items, every kind."""
    for a, b in product(MENU, MENU):
        yield (("generic", 0, None, None, realize((a,), TERMS[0])), ("actor", 1, I(2)[1], None, realize((b,), TERMS[1])))
    for a, b, c in product(MENU[1::3], repeat=3):
        yield tuple(("coro", i, None, f"CORO_{i}", realize((x, "o"), TERMS[0])) for i, x in enumerate((a, b, c)))


FLAT = ("op", "or", "arms", "arms else", "cases", "ifs", "message", "monologue", "args", "with", "inline")


def many(n):
    for what, f in deep.wide_kinds():
        if what in FLAT:
            for k in range(1, n + 1):
                for t in TERMS:
                    yield (("generic", 0, None, None, gen.number(f(k) + (t,))),)
    sw = lambda k, d: ("switch", "H", tuple(((None if i == d else "K"), (("O",),) * (i % 3) + (("break",),)) for i in range(k)))
    for k in range(1, n + 1):
        for d in range(-1, k):
            yield (("generic", 0, None, None, gen.number((sw(k, d), ("O",), ("ret",)))),)
        yield (("generic", 0, None, None, gen.number(tuple(sw(2 + i % 3, i % 4 - 1) for i in range(k)) + (("ret",),))),)
        yield tuple(("generic", i, None, None, gen.number((sw(i + 1, i % 4 - 1), ("if", ((i % 2, ("Q",), (("O",),)),), None), ("ret",)), 10 * i)) for i in range(k))


def spaces(tier):
    q = tier == "quick"
    S = runner.Space
    return [
        S("single", lambda: single(2 if q else 3, 3 if q else 4, B2 if q else B2), run, "one if chain (1..%d arms) or switch (1..%d cases, default anywhere), blocks of 1..2 ops, every not/|| choice, op or nothing before and after, two terminators" % ((2, 3) if q else (3, 4))),
        S("arms", lambda: sequences(1, tuple(ifs(3 if q else 4, B1)) + tuple(switches(5 if q else 6, B1))), run, "one if chain of up to 3/4 arms or switch of up to 5/6 cases"),
        S("sequences", lambda: sequences(3, MENU2) if q else chain(sequences(3, MENU2), sequences(4, MENU)), run, f"all sequences of up to 3 of {len(MENU2)}" + ("" if q else f" and up to 4 of {len(MENU)}") + " statements/if chains/switches"),
        S("kinds", kinds, run, "every kind and pair of kinds of plain statements in every block; every terminator"),
        S("kind-sequences", lambda: sequences(3 if q else 5, KMENU), run, "all sequences of plain statement kinds and mixed blocks"),
        S("forms", form_cases, run, "every condition, assignment, operand and switch header/case form"),
        S("empty", lambda: single(2, 3, ((), ("o",))), run, "as single, with empty blocks"),
        S("many", lambda: many(10 if q else 20), run, "1..10 (thorough 20) arms, conditions, cases, statements"),
        S("multi", multi, run, "two and three routines of all kinds"),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
