"""C02: decompiled text read back (own reader + specification, and compiled) behaves like the decompiled routine set.

For every routine set of the enumerated spaces three LTS are compared on the product state space:
  (a) the SSB machine on the input routine set,
  (b) the meaning of the decompiled text by the language specification, read by this framework's own reader,
  (c) the SSB machine on the really recompiled text.
"""
from __future__ import annotations

import sys
from itertools import product

from mc import deep, forms, gen, macros, reader, runner, src, ssb
from mc.lts import compare

PROPERTY = "C02"
ASSUMPTIONS = [
    "fixed-arity operations have operands of the kinds their encoding has room for (mc/ssb.py SHAPES)",
    "BranchValue/flag_CalcValue with the operator ==/= and Branch/flag_Set are the same test/assignment (one spelling in the language)",
    "source programs whose compilation runs off the end of a routine: that is a return (C01)",
    "dungeon modes 0..3 and the configured constants are one value (C04)",
    "a DefaultText among CaseTexts of one message switch is printed and compiled as the last one (texts of a message switch are not ordered behaviour)",
    "reaching the end of a routine after a context op is a stop",
]

DM = {("c", n): ("i", i) for i, n in enumerate(ssb.DMODES)}


def dm_norm(lbl):
    name, params = lbl
    if any(p in DM for p in params):
        params = tuple(DM.get(p, p) for p in params)
    if name == "CaseScenario":
        name = "CaseValue"
    if name == "BranchValue" and len(params) == 3 and params[1] == ("i", 2):
        name, params = "Branch", (params[0], params[2])  # the same condition: "==" has an operation of its own
    if name == "flag_CalcValue" and len(params) == 3 and params[1] == ("i", 0):
        name, params = "flag_Set", (params[0], params[2])
    return (name, params)


def dm_nodes(nodes):
    out = []
    for n in nodes:
        if n[0] in ("op", "test", "end"):
            out.append((n[0], dm_norm(n[1])) + tuple(n[2:]))
        else:
            out.append(n)
    return out


def pairs(infos, e1, e2):
    return [(i, a, b) for i, (a, b) in enumerate(zip(e1, e2))]


def check_set(rset, rec, case, start=1, gaps=(), key=None, want_structured=False):
    """Returns the text if everything held."""
    infos, ops = rset
    key = key or (show_infos(infos) + ssb.show_ops(ops))
    try:
        text, sm = ssb.decompile(rset, start, gaps)
    except Exception as e:
        rec.violation("exception", key, f"{type(e).__name__}: {e}", case)
        return None
    fallback = text.startswith("//?:")
    if fallback:
        rec.outcome("fallback")
    nodes, base = ssb.machine(ops)
    n1 = dm_nodes(nodes)
    ents = [b if r else None for b, r in zip(base, ops)]
    # (c) the compiler's reading
    try:
        c = ssb.compile_text(text)
        cinfos, cops = ssb.canon_compiled(c)
    except Exception as e:
        rec.violation("rejected", key, f"{type(e).__name__}: {e}\n{text}", case)
        return None
    if cinfos != infos:
        rec.violation("tables", key, f"{cinfos}\n{text}", case)
        return None
    for i, (a, b) in enumerate(zip(ops, cops)):
        if bool(a) != bool(b):
            rec.violation("tables", key, f"routine {i} empty on one side only\n{text}", case)
            return None
    n2, base2 = ssb.machine(cops)
    n2 = dm_nodes(n2)
    for i, (a, b) in enumerate(zip(ents, base2)):
        if a is None:
            continue
        r = compare(n1, a, n2, b, rec)
        if r:
            rec.violation("behaviour", key, f"routine {i}: {r}\n{text}\n{ssb.show_ops(cops)}", case)
            return None
    rec.trace()
    if fallback:
        return text
    # (b) the specification's reading
    try:
        prog, _ = reader.read(text)
        n3, ents3, infos3 = src.meaning(prog["routines"])
    except (reader.ReadError, src.Meaningless) as e:
        rec.violation("unreadable", key, f"{e}\n{text}", case)
        return None
    if infos3 != infos:
        rec.violation("text-tables", key, f"{infos3}\n{text}", case)
        return None
    n3 = dm_nodes(n3)
    for i, (a, b) in enumerate(zip(ents, ents3)):
        if a is None or b is None:
            if a is not b:
                rec.violation("text-tables", key, f"routine {i} empty on one side only\n{text}", case)
                return None
            continue
        r = compare(n1, a, n3, b, rec)
        if r:
            rec.violation("text-behaviour", key, f"routine {i}: {r}\n{text}", case)
            return None
    return text


def show_infos(infos):
    return "; ".join(":".join(str(x) for x in i if x is not None) for i in infos) + "\n"


# ---- enumeration of op lists -------------------------------------------------------------------------------------
NON_JUMP = {"o": None, "r": ("Return", ()), "e": ("End", ()), "h": ("Hold", ()), "x": ("lives", (("i", 0),))}


def oplists(n, alphabet, nroutines=1, cuts=None):
    """All op lists of n ops over an alphabet: o op, r/e/h ends, x context, b branch, j jump, c call, S switch, K case.

    Yields lists of (letter, flat target | None). Constraints: a case directly follows a switch or another case; a
    context op is followed by an op that is none of context/jump-carrying/switch; a switch is followed by anything.
    """
    def rec(i, prev, acc):
        if i == n:
            yield tuple(acc)
            return
        for a in alphabet:
            if a == "K" and prev not in ("S", "K"):
                continue
            if prev == "x" and a not in "or":
                continue
            if a in "bjcK":
                for t in range(n):
                    acc.append((a, t))
                    yield from rec(i + 1, a, acc)
                    acc.pop()
            else:
                acc.append((a, None))
                yield from rec(i + 1, a, acc)
                acc.pop()

    yield from rec(0, "", [])


def realize(lst, cuts=()):
    """letters -> routine set; cuts: flat indices at which a new routine starts."""
    pos = []
    r = o = 0
    for i in range(len(lst)):
        if i in cuts:
            r += 1
            o = 0
        pos.append((r, o))
        o += 1
    out = [[] for _ in range(len(cuts) + 1)]
    for i, (a, t) in enumerate(lst):
        tgt = pos[t] if t is not None else None
        if a == "o":
            op = (f"o{i}", (), None)
        elif a == "b":
            op = ("Branch", (("c", "$V"), ("i", i)), tgt)
        elif a == "j":
            op = ("Jump", (), tgt)
        elif a == "c":
            op = ("Call", (), tgt)
        elif a == "S":
            op = ("Switch", (("c", f"$X{i}"),), None)
        elif a == "K":
            op = ("Case", (("i", i),), tgt)
        else:
            op = NON_JUMP[a] + (None,)
        out[pos[i][0]].append(op)
    return tuple(("generic", None, None) for _ in out), tuple(tuple(x) for x in out)


def all_reachable(ops):
    nodes, base = ssb.machine(ops)
    from mc.lts import reachable

    seen = reachable(nodes, [b for b, r in zip(base, ops) if r])
    return all(b + i in seen for b, r in zip(base, ops) for i in range(len(r)))


def op_cases(alphabet, lo, hi, nr=1, reach=None):
    from itertools import combinations

    for n in range(lo, hi + 1):
        for cuts in combinations(range(1, n), nr - 1):
            for lst in oplists(n, alphabet):
                if lst[-1][0] not in "rehj":
                    continue
                if any(lst[c - 1][0] not in "rehj" or lst[c][0] == "K" for c in cuts):
                    continue
                rset = realize(lst, cuts)
                if not ssb.well_formed(rset[1]):
                    continue
                if reach and n >= reach and not all_reachable(rset[1]):
                    continue
                yield lst, cuts


def run_ops(case, rec):
    lst, cuts = case
    rset = realize(lst, cuts)
    t = check_set(rset, rec, case)
    if t and not rec.samples:
        rec.sample(ssb.show_ops(rset[1]) + "\n=>\n" + t)


def op_space(name, alphabet, lo, hi, nr=1, reach=None):
    return runner.Space(
        name, lambda: op_cases(alphabet, lo, hi, nr, reach), run_ops,
        f"all well-formed routine sets of {nr} routine(s), {lo}..{hi} ops over '{alphabet}' with every choice of jump targets"
        + (f" (from {reach} ops on: every op reachable)" if reach else ""), chunk=32, timeout=1.5,
    )


# ---- compiled programs ---------------------------------------------------------------------------------------------
def run_prog(routines, rec):
    try:
        c = ssb.compile_text(src.render(routines))
        rset = ssb.canon_compiled(c)
    except Exception:
        rec.outcome("source rejected")
        return
    if not ssb.well_formed(rset[1], True) or not ssb.proper(rset[1]):
        rec.outcome("not well-formed")
        return
    t = check_set(rset, rec, routines, key=src.render(routines))
    if t and not rec.samples:
        rec.sample(src.render(routines) + "\n=>\n" + t)


def body_cases(feats, labels, lo, hi, depth, tail=()):
    for n in range(lo, hi + 1):
        for b in gen.bodies(feats, n, labels, depth):
            if b:
                yield (("generic", 0, None, None, gen.number(b + tail)),)


def body_space(name, feats, labels, lo, hi, depth=3, tail=()):
    return runner.Space(
        name, lambda: body_cases(feats, labels, lo, hi, depth, tail), run_prog,
        f"compile results of all routine bodies over features '{feats}', labels {labels}, cost {lo}..{hi}, nesting <= {depth}",
    )


def one(bodies):
    for b in bodies:
        yield (("generic", 0, None, None, b),)


def form_cases(q):
    for c in forms.conditions():
        for what, b in forms.cond_contexts(c):
            yield (("generic", 0, None, None, b),)
    for s in forms.simple_statements():
        for what, b in forms.stmt_contexts(s):
            yield (("generic", 0, None, None, b),)
    for b in forms.ctx_end_programs():
        yield (("generic", 0, None, None, b),)
    for b in forms.switch_programs(forms.VALS[1:2] if q else forms.VALS):
        yield (("generic", 0, None, None, b),)
    for b in forms.mswitch_programs():
        yield (("generic", 0, None, None, b),)


def spaces(tier):
    q = tier == "quick"
    out = [
        op_space("ops1", "orbj", 1, 4),
        op_space("ops1-5", "orbj", 5, 5, reach=5),
        op_space("switch", "SKorj", 2, 5, reach=5),
        op_space("ops2", "orbj", 2, 4, nr=2),
        op_space("ends", "orehxcbj", 1, 3),
        body_space("struct", "or2inExsd", (), 1, 4),
        body_space("loops", "orixfwFs", (), 1, 4),
        body_space("jumps", "orljcixs", ("a",), 1, 4),
        runner.Space("routines", lambda: (rs for n in (1, 2) for rs in forms.routine_programs(n)), run_prog, "programs of 1..2 routines over kinds, targets, coroutines, aliases, cross-routine jumps/calls"),
        runner.Space("switch shapes", lambda: one(forms.switch_shapes(4 if q else 5)), run_prog, "every switch of 1..%d cases: default anywhere or missing, every choice of blocks" % (4 if q else 5)),
        runner.Space("routine webs", lambda: deep.routine_webs(6 if q else 12), run_prog, "2..6 (thorough 12) routines that jump to, branch to and call each other", timeout=20),
        runner.Space("deep", lambda: one(deep.programs(2 if q else 3, 8 if q else 16)), run_prog, "all chains of %d nested blocks of 15 kinds x innermost statements, every construct repeated up to %d times, label webs" % ((2, 8) if q else (3, 16)), timeout=10),
        runner.Space("nested", lambda: one(deep.nested_same(6 if q else 10)), run_prog, "one block kind nested in itself up to 6 (thorough 10) times", timeout=20),
        runner.Space("forms", lambda: form_cases(q), run_prog, "every condition/statement/switch form in every place"),
    ]
    if not q:
        out += [
            op_space("ops1-6", "obj", 6, 6, reach=6),
            op_space("switch6", "SKoj", 6, 6, reach=6),
            op_space("ends4", "orehxcbj", 4, 4),
            body_space("loops5", "oixfwF", (), 5, 5),
            body_space("jumps5", "oljixs", ("a",), 5, 5),
        ]
    return out


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
