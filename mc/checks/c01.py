"""C01: compiled routines behave like the source (lock-step exploration of source meaning x SSB machine)."""
from __future__ import annotations

import sys

from mc import deep, forms, gen, runner, src, ssb
from mc.lts import compare

PROPERTY = "C01"


def check_program(routines, macros, rec, key=None, text=None, compiled=None):
    prog = {"routines": routines, "macros": macros or ()}
    if text is None:
        text = src.render(prog)
    try:
        nodes, ents, infos = src.meaning(routines, macros)
    except src.Meaningless:
        rec.outcome("meaningless")
        return
    try:
        c = compiled or ssb.compile_text(text)
    except Exception as e:
        rec.outcome(f"rejected {type(e).__name__}")
        return
    rec.outcome("accepted")
    judge(c, nodes, ents, infos, rec, key or text)


def judge(c, nodes, ents, infos, rec, key):
    try:
        cinfos, cops = ssb.canon_compiled(c)
    except ValueError as e:
        rec.violation("not-closed", key, str(e))
        return
    if cinfos != infos:
        rec.violation("routine-table", key, f"expected {infos}\ngot      {cinfos}")
        return
    if len(cops) != len(infos):
        rec.violation("routine-table", key, f"{len(cops)} op lists for {len(infos)} routines")
        return
    for r in cops:
        head = None
        for name, params, tgt in r:
            if name.startswith("Case") or name == "Default":
                if name in ("CaseValue", "CaseScenario") and (head == "SwitchScenario") != (name == "CaseScenario"):
                    rec.violation("case-op", key, f"{name} in a {head}\n{ssb.show_ops(cops)}")
                    return
            else:
                head = name
    mnodes, base = ssb.machine(cops)
    for i, e in enumerate(ents):
        if e is None:  # alias: no ops of its own
            if cops[i]:
                rec.violation("alias-has-ops", key, ssb.show_ops(cops))
            continue
        w = compare(nodes, e, mnodes, base[i], rec)
        rec.trace()
        if w:
            rec.violation("behaviour", key, f"routine {i}: source vs compiled {w}\n{ssb.show_ops(cops)}")
            return


def run_body(case, rec):
    feats, body = case
    b = gen.number(body)
    routines = (("generic", 0, None, None, b),)
    if not rec.samples:
        rec.sample(src.render(routines))
    check_program(routines, None, rec)


def body_space(name, feats, labels, lo, hi, depth=3, bound=None, tail=()):
    def g():
        for n in range(lo, hi + 1):
            for b in gen.bodies(feats, n, labels, depth):
                if b:
                    yield (feats, b + tail)

    return runner.Space(
        name, g, run_body,
        bound or f"all routine bodies over features '{feats}', labels {labels}, cost {lo}..{hi}, nesting <= {depth}"
    )


def run_forms(case, rec):
    what, body = case
    routines = (("generic", 0, None, None, body),)
    if not rec.samples:
        rec.sample(src.render(routines))
    check_program(routines, None, rec)


def run_routines(routines, rec):
    if not rec.samples:
        rec.sample(src.render(routines))
    check_program(routines, None, rec)


def cond_cases():
    for c in forms.conditions():
        yield from forms.cond_contexts(c)


def stmt_cases():
    for s in forms.simple_statements():
        yield from forms.stmt_contexts(s)
    for b in forms.ctx_end_programs():
        yield "ending op in a context", b


def block_cases():
    for b in forms.switch_programs():
        yield "switch", b
    for b in forms.mswitch_programs():
        yield "mswitch", b


def routine_cases(hi):
    for n in range(1, hi + 1):
        yield from forms.routine_programs(n)


def spaces(tier):
    q = tier == "quick"
    return [
        runner.Space("conditions", cond_cases, run_forms, "every condition form x operator x operand kind in every place a condition can stand"),
        runner.Space("statements", stmt_cases, run_forms, "every simple statement form x operand kind in plain, with, inline-context, block and loop positions"),
        runner.Space("switches", block_cases, run_forms, "every switch header x case header, two-case fall-through shapes, message switches with up to 3 cases"),
        runner.Space("switch shapes", lambda: (("shape", b) for b in forms.switch_shapes(4 if q else 6)), run_forms, "every switch of 1..%d cases: default anywhere or missing, every choice of blocks (none, op, op and break, break, return)" % (4 if q else 6)),
        runner.Space("routines", lambda: routine_cases(2 if q else 3), run_routines, "1..2 (thorough 3) routines over kinds, targets, coroutines, aliases, cross-routine jumps/calls, in every textual order"),
        body_space("mixed", "oreljcinx2EsdfwFWtM", ("a",), 1, 3),
        body_space("struct", "or2inExsdfwF", (), 1, 4 if q else 5),
        body_space("jumps", "orlcjinxsdfw", ("a",), 1, 4 if q else 5),
        body_space("two labels", "orljcisw", ("a", "b"), 1, 4 if q else 5),
        runner.Space("routine webs", lambda: deep.routine_webs(6 if q else 12), run_routines, "2..6 (thorough 12) routines that jump to, branch to and call each other"),
        runner.Space("deep", lambda: (("deep", b) for b in deep.programs(2 if q else 4, 8 if q else 16)), run_forms, "all chains of %d nested blocks of 15 kinds x innermost statements, every construct repeated up to %d times, label webs" % ((2, 8) if q else (4, 16))),
        runner.Space("deep3", lambda: (("deep", b) for b in deep.chains(3, labels=False, behind=(1,))), run_forms, "all chains of 3 nested blocks of 15 kinds x innermost statements"),
        runner.Space("nested", lambda: (("deep", b) for b in deep.nested_same(8)), run_forms, "one block kind nested in itself up to 8 times"),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
