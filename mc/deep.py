"""Programs beyond the size bounds of gen.py along one dimension: nesting chains of all block kinds, and wide programs.

`chains(d)`: every sequence of d block kinds nested in each other, with every innermost statement that has a meaning
there, with and without operations behind the blocks. `wide(n)`: for every construct that can be repeated, 1..n of it.
Placeholders as in gen.py; `gen.number` makes them distinguishable.
"""
from __future__ import annotations

from itertools import product

from mc import gen
from mc.src import C, I

O = ("O",)
BR = ("break",)

# kind -> (what break / continue inside belong to: 's' switch, 'l' loop, '' neither, statement around a block b)
WRAPS = {
    "if": ("", lambda b: ("if", ((0, ("Q",), b),), None)),
    "not": ("", lambda b: ("if", ((1, ("Q",), b),), None)),
    "or": ("", lambda b: ("if", ((0, ("Q", "Q"), b),), None)),
    "then": ("", lambda b: ("if", ((0, ("Q",), b),), (O,))),
    "else": ("", lambda b: ("if", ((1, ("Q", "Q"), (O,)),), b)),
    "elseif": ("", lambda b: ("if", ((0, ("Q",), (O,)), (0, ("Q",), b)), None)),
    "mid": ("", lambda b: ("if", ((0, ("Q",), (O,)), (1, ("Q",), b)), (O,))),
    "case": ("s", lambda b: ("switch", "H", (("K", b + (BR,)), ("K", (O, BR))))),
    "fall": ("s", lambda b: ("switch", "H", (("K", b), ("K", (O,)), (None, (O,))))),
    "last": ("s", lambda b: ("switch", "H", (("K", (O, BR)), ("K", b)))),
    "default": ("s", lambda b: ("switch", "H", (("K", ()), (None, b + (BR,)), ("K", (O,))))),
    "forever": ("l", lambda b: ("forever", b)),
    "while": ("l", lambda b: ("while", 0, "Q", b)),
    "until": ("l", lambda b: ("while", 1, "Q", b)),
    "for": ("l", lambda b: ("for", O, "Q", O, b)),
}


def inners(kinds, labels):
    """Innermost blocks: (block, label to put at the start / behind everything)."""
    m = [WRAPS[k][0] for k in kinds if WRAPS[k][0]]
    yield (O,), None
    yield (("ret",),), None
    if "s" in m and m[-1] == "s":
        yield (BR,), None
        yield (O, BR), None
        yield (("if", ((0, ("Q",), (BR,)),), None), O), None
    if "l" in m:
        for s in ("continue", "break_loop"):
            yield ((s,),), None
            yield (O, (s,)), None
            yield (("if", ((0, ("Q",), ((s,),)),), (O,)),), None
    if labels:
        for where in "se":
            yield (("jump", "a"),), where
            yield (O, ("call", "a"), O), where


def chains(d, kinds=tuple(WRAPS), labels=True, behind=(0, 1)):
    for ks in product(kinds, repeat=d):
        for inner, where in inners(ks, labels):
            for f in behind:
                b = inner
                for k in reversed(ks):
                    b = (WRAPS[k][1](b),) + ((O,) if f else ())
                if where == "s":
                    b = (O, ("label", "a")) + b
                elif where == "e":
                    b = b + (("label", "a"), O)
                yield gen.number(b + (("ret",),))


def wide_kinds():
    yield "op", lambda k: (O,) * k
    for neg in (0, 1):
        yield "or", lambda k: (("if", ((neg, ("Q",) * k, (O,)),), (O,)), O)
        yield "arms", lambda k: (("if", tuple((neg * (i % 2), ("Q",), (O,)) for i in range(k)), None), O)
        yield "arms else", lambda k: (("if", tuple((neg * ((i + 1) % 2), ("Q",) * (1 + i % 2), (O, O)) for i in range(k)), (O,)), O)
    yield "cases", lambda k: (("switch", "H", tuple(("K", (O, BR)) for i in range(k))), O)
    yield "fall", lambda k: (("switch", "H", tuple(("K", (O,)) for i in range(k))), O)
    yield "groups", lambda k: (("switch", "H", tuple(("K", ()) for i in range(k)) + ((None, (O, BR)), ("K", (O,)))), O)
    yield "default first", lambda k: (("switch", "H", ((None, (O,)),) + tuple(("K", (O, BR)) if i % 3 else ("K", (O,)) for i in range(k))), O)
    yield "default middle", lambda k: (("switch", "H", tuple(("K", (O, BR)) for i in range(k // 2)) + ((None, (O, BR)),) + tuple(("K", (O,)) for i in range(k - k // 2))), O)
    yield "ifs", lambda k: tuple(("if", ((i % 2, ("Q",), (O,)),), (O,) if i % 3 == 0 else None) for i in range(k))
    yield "switches", lambda k: tuple(("switch", "H", (("K", (O, BR)), (None, (O,)))) for i in range(k)) + (O,)
    yield "loops", lambda k: tuple((("while", i % 2, "Q", (O,)), ("forever", (O, ("if", ((0, ("Q",), (("break_loop",),)),), None))), ("for", O, "Q", O, (O,)))[i % 3] for i in range(k)) + (O,)
    yield "message", lambda k: (("mswitch", "Talk", C("$M"), tuple((I(i), ("s", f"m{i}")) for i in range(k)) + ((None, ("s", "d")),)), O)
    yield "monologue", lambda k: (("mswitch", "Monologue", C("$M"), ((None, ("s", "d")),) + tuple((I(i), ("s", f"m{i}")) for i in range(k))), O)
    yield "args", lambda k: (("op", "big", tuple(I(i) for i in range(k)), None), O)
    yield "with", lambda k: tuple(("with", ("actor", "object", "performer")[i % 3], I(i), O) for i in range(k))
    yield "inline", lambda k: tuple(("op", f"u{i}", (), (("actor", "object", "performer")[i % 3], I(i))) for i in range(k))
    yield "exits", lambda k: (("forever", tuple(("if", ((0, ("Q",), ((("break_loop",) if i % 2 else ("continue",)),)),), None) for i in range(k)) + (O,)), O)


def wide(n, tail=(("ret",),)):
    for what, f in wide_kinds():
        for k in range(1, n + 1):
            yield gen.number(f(k) + tail)


def long_jumps(n):
    """k labelled operations and a jump / call / branch from every one to every other one."""
    for k in range(1, n + 1):
        for a in range(k):
            for b in range(k):
                for st in (("jump", f"l{b}"), ("call", f"l{b}"), ("if", ((0, ("Q",), (("jump", f"l{b}"),)),), None)):
                    body = []
                    for i in range(k):
                        body += [("label", f"l{i}"), O] if i == b else [O]
                        if i == a:
                            body.append(st)
                    yield gen.number(tuple(body) + (("ret",),))


def many_labels(n):
    """A web of labels: every operation has one, jumps in several orders."""
    for k in range(1, n + 1):
        for order in (lambda i: (i + 1) % k, lambda i: (i * 2 + 1) % k, lambda i: k - 1 - i):
            body = []
            for i in range(k):
                body += [("label", f"l{i}"), O, ("if", ((i % 2, ("Q",), (("jump", f"l{order(i)}"),)),), None)]
            yield gen.number(tuple(body) + (("ret",),))


def programs(d, n, **kw):
    for i in range(1, d + 1):
        yield from chains(i, **kw)
    yield from wide(n)
    yield from long_jumps(min(n, 7))
    yield from many_labels(n)


def nested_same(n):
    """One block kind nested n times in itself."""
    for k in WRAPS:
        for i in range(4, n + 1):
            for inner, where in inners([k], False):
                for f in (0, 1):
                    b = inner
                    for _ in range(i):
                        b = (WRAPS[k][1](b),) + ((O,) if f else ())
                    yield gen.number(b + (("ret",),))


def routine_webs(n):
    """2..n routines of every kind that jump to, branch to and call each other."""
    from mc import forms

    for k in range(2, n + 1):
        for step in range(1, k):
            rs = []
            for i in range(k):
                body = (("label", f"a{i}"),) + (forms.o(i),) * (i % 4 + 1) + (("label", f"b{i}"), ("if", ((0, (forms.q(i),), (("jump", f"a{(i + step) % k}"),)),), None), ("call", f"b{(i + 2 * step) % k}"), ("ret",))
                kind = ("generic", "actor", "object", "performer")[(i + step) % 4]
                rs.append((kind, i, None if kind == "generic" else (i if step % 2 else f"T_{i}"), None, body))
            yield tuple(rs)
            yield tuple(("coro", i, None, f"C{i}", r[4]) for i, r in enumerate(rs))
            # structured routines of different lengths, every one with jumps into another one
            rs = []
            for i in range(k):
                body = (
                    ("if", ((i % 2, (forms.q(i),), (forms.o(10 * i), ("jump", f"a{(i + step) % k}"))),), (forms.o(10 * i + 1),)),
                    ("switch", ("var", C("$S")), ((("v", I(i)), (forms.o(10 * i + 2), BR)), (None, (("jump", f"b{(i + step) % k}"),)))),
                    ("label", f"a{i}"), forms.o(10 * i + 3),
                    ("while", i % 2, forms.q(50 + i), (forms.o(10 * i + 4), ("if", ((0, (forms.q(70 + i),), (("jump", f"b{i}"),)),), None))),
                    ("label", f"b{i}"), forms.o(10 * i + 5),
                )
                rs.append(("generic", i, None, None, body + ((("ret",),) if i % 3 else (("jump", f"b{(i + step) % k}"),))))
            yield tuple(rs)
