"""C03: the compiled op list is closed and uniquely addressed (invariant checked on every enumerated compile result)."""
from __future__ import annotations

import sys
from itertools import product

from explorerscript.ssb_converting.ssb_data_types import SsbOperation

from mc import deep, forms, gen, macros, runner, src, ssb
from mc.checks import c01, c05

PROPERTY = "C03"


def invariant(c, infos=None, text=None):
    """None, or what is wrong with the compilation result of text. Jump-carrying ops the text does not spell out are
    written by the compiler itself, so they have exactly the operands of their encoding before the target."""
    rinfos, rops, coros = c.routine_infos, c.routine_ops, c.named_coroutines
    if rinfos is None or rops is None or coros is None:
        return "a table is missing"
    if not (len(rinfos) == len(rops) == len(coros)):
        return f"table lengths {len(rinfos)} {len(rops)} {len(coros)}"
    if infos is not None:
        got = ssb.infos_of(rinfos, coros)
        if got != infos:
            return f"tables are not indexed by routine id: expected {infos}, got {got}"
    offsets = {}
    for ri, r in enumerate(rops):
        for op in r:
            if type(op) is not SsbOperation:
                return f"{type(op).__name__} {op!r} remains"
            if not isinstance(op.offset, int) or isinstance(op.offset, bool) or op.offset < 0:
                return f"{op.op_code.name} has offset {op.offset!r}"
            if op.offset in offsets:
                return f"offset {op.offset} is used by {offsets[op.offset]} and {op.op_code.name}"
            if op.op_code.name.startswith("ES_"):
                return f"internal op {op.op_code.name} remains"
            offsets[op.offset] = op.op_code.name
    for r in rops:
        for op in r:
            if op.op_code.name in ssb.JUMP_OPS:
                if not op.params or type(op.params[-1]) is not int:
                    return f"{op.op_code.name} at {op.offset} has no target: {op.params}"
                if op.params[-1] not in offsets:
                    return f"{op.op_code.name} at {op.offset} jumps to {op.params[-1]}, which is no op"
                n = len(ssb.SHAPES.get(op.op_code.name, ())) + 1
                if text is not None and len(op.params) != n and f"{op.op_code.name}(" not in text:
                    return f"{op.op_code.name} at {op.offset} has the parameters {op.params}, not {n - 1} and the target"
    return None


def expected_infos(routines):
    infos = {}
    nxt = 0
    for kind, rid, target, cname, body in routines:
        if kind == "coro":
            rid = nxt
        nxt = rid + 1
        infos[rid] = (kind, target if kind in ("actor", "object", "performer") else None, cname if kind == "coro" else None)
    return tuple(infos.get(i, ("none", None, None)) for i in range(max(infos) + 1)) if infos else ()


def check_text(text, rec, infos=None, key=None, args=()):
    if not rec.samples:
        rec.sample(text)
    try:
        c = ssb.compile_text(text, *args)
    except Exception as e:
        rec.outcome(f"rejected {type(e).__name__}")
        return
    rec.outcome("accepted")
    rec.trace()
    rec.states(sum(map(len, c.routine_ops or ())))
    rec.transitions(sum(1 for r in c.routine_ops or () for op in r if op.op_code.name in ssb.JUMP_OPS))
    why = invariant(c, infos, text)
    if why:
        rec.violation("open", key or text, why)


def run_body(case, rec):
    b = gen.number(case[1])
    routines = (("generic", 0, None, None, b),)
    check_text(src.render(routines), rec, expected_infos(routines))


def run_form(case, rec):
    routines = (("generic", 0, None, None, case[1]),)
    check_text(src.render(routines), rec, expected_infos(routines))


def run_routines(routines, rec):
    check_text(src.render(routines), rec, expected_infos(routines))


def run_macro(case, rec):
    ms, routines = case[-2:]
    check_text(src.render({"macros": ms, "routines": routines}), rec, expected_infos(routines))


def run_text(text, rec):
    check_text(text, rec)


def run_two(case, rec):
    """two routines with a jump/call/branch across, with every body of the first routine"""
    b1, b2 = case
    n = gen.number(b1 + b2)
    routines = (("generic", 0, None, None, n[: len(b1)]), ("actor", 1, "A", None, n[len(b1):]))
    if gen.labels_ok(b1 + b2):
        check_text(src.render(routines), rec, expected_infos(routines))
        check_text(src.render(routines[::-1]), rec, expected_infos(routines))


def two(n):
    from mc.gen import G

    g = G("orljcis", ("a",), 2)
    bl = [b for k in range(1, n + 1) for b in g.blocks(k, False, False, 2)]
    for b1, b2 in product(bl, repeat=2):
        if gen.labels_ok(b1 + b2):
            yield b1, b2


def plain_jump_texts():
    """Operations with jump-carrying names in every syntactic position an operation can have."""
    args = ("", "1", "$X, 1", "0", "2", "CONST", "'s'", "1, 2, 3", "-1", "99")
    for name in sorted(ssb.JUMP_OPS):
        for a in args:
            for shape in (
                "def 0 {{ o1(); {0}; o2(); }}", "def 0 {{ {0}; }}", "def 0 {{ with (actor X) {{ {0}; }} end; }}",
                "def 0 {{ for ({0}; $X == 1; {0};) {{ o(); }} }}", "def 0 {{ switch ({0}) {{ case 1: o(); break; }} }}",
                "def 0 {{ if ({0}) {{ o(); }} }}", "def 0 {{ while ({0}) {{ o(); }} }}", "macro m() {{ {0}; o(); }} def 0 {{ ~m(); }}",
                "//?: is-ssb-script: true\ndef 0 {{ o1(); {0}; o2(); }}", "//?: is-ssb-script: true\ndef 0 {{ {0}; }}",
                "//?: is-ssb-script: true\ndef 0 {{ @l; o(); {0}; }}",
            ):
                yield shape.format(f"{name}({a})")
        for shape in ("def 0 {{ {0}; }}", "def 0 {{ o1(); {0}; }} def 1 {{ o2(); }}"):
            for inner in (f"{name}<actor X>(1)", f"{name}<object 2>($X, 2)"):
                yield shape.format(inner)


def ssbscript_texts(n):
    """All SsbScript files of up to n items over ops, jumps, labels, in one or two routines."""
    items = ("o()", "Jump(@a)", "Branch($V, 1, @b)", "Call(@a)", "Case(3, @b)", "foo(1, @a)", "Return()", "@a", "@b", "§b", "Jump(@a, 1)")
    for k in range(1, n + 1):
        for seq in product(items, repeat=k):
            for cut in range(k):
                first, second = seq[:cut], seq[cut:]
                for ids in ((0, 1), (1, 0)):
                    t = "//?: is-ssb-script: true\n"
                    if first:
                        t += f"def {ids[0]} {{ " + " ".join(x + ";" for x in first) + " }\n"
                    t += f"def {ids[1] if first else 0} {{ " + " ".join(x + ";" for x in second) + " }\n"
                    yield t


def spaces(tier):
    q = tier == "quick"

    def bs(name, feats, labels, hi):
        s = c01.body_space(name, feats, labels, 1, hi)
        return runner.Space(name, s.gen, run_body, s.bound)

    return [
        runner.Space("plain jump ops", plain_jump_texts, run_text, "every jump-carrying opcode name x 10 argument lists x 13 syntactic positions (also macros and SsbScript)"),
        runner.Space("ssbscript", lambda: ssbscript_texts(3 if q else 4), run_text, "all SsbScript files of up to 3 (thorough 4) statements (ops, jumps, labels) in one or two routines"),
        runner.Space("conditions", c01.cond_cases, run_form, "as C01"),
        runner.Space("statements", c01.stmt_cases, run_form, "as C01"),
        runner.Space("switches", c01.block_cases, run_form, "as C01"),
        runner.Space("routines", lambda: c01.routine_cases(2 if q else 3), run_routines, "as C01"),
        runner.Space("two routines", lambda: two(2 if q else 3), run_two, "all pairs of bodies of cost <= 2 (thorough 3) with jumps and calls across routines, both textual orders"),
        runner.Space("macros", lambda: macros.body_programs("orhlcjinxsdfwM", ("a",), 2 if q else 3), run_macro, "as C05 bodies"),
        runner.Space("macro graphs", lambda: c05.graphs(3 if q else 4), run_macro, "as C05 graphs"),
        runner.Space("deep", lambda: (("deep", b) for b in deep.programs(2 if q else 3, 8 if q else 16)), run_form, "as C01"),
        runner.Space("many macros", lambda: macros.wide_programs(8 if q else 16), run_macro, "as C05"),
        runner.Space("nested macro bodies", lambda: macros.deep_bodies(2), run_macro, "as C05"),
        bs("mixed", "oreljcinx2EsdfwFWtM", ("a",), 3),
        bs("jumps", "orlcjinxsdfw", ("a",), 3 if q else 5),
        bs("struct", "or2inExsdfwF", (), 3 if q else 5),
        bs("two labels", "orljcisw", ("a", "b"), 3 if q else 5),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
