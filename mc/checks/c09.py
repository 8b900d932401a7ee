"""C09: the source map of the decompiler points at the statement printed for each op.

For every routine set of the enumerated spaces the input machine is explored together with the specification LTS of the really
decompiled text (whose nodes carry the positions at which this framework's reader found their statements) and with the machine
of the really recompiled text (whose ops carry the compiler's source map).
"""
from __future__ import annotations

import sys

from mc import deep, forms, reader, runner, src, ssb
from mc.checks import c02, c07
from mc.lts import resolve

PROPERTY = "C09"
ASSUMPTIONS = [
    "operations have operands of the kinds their encoding has room for (mc/ssb.py SHAPES), as for C02",
    "the statement printed for an op of a condition is the if/elseif header (for the operations after || an entry may also point at the condition, and is not required)",
    "a Jump may only be mapped to a jump, break, continue or break_loop in its place in the control flow; it must be where that is the only such statement, no other control flow runs into it, and the Jump directly follows an operation and is no jump target, in a routine without branches (others may be dissolved into the control flow)",
]


def decompile(rset, start, gaps):
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

    rinfos, rops, coros = ssb.build(rset, start, gaps)
    offs = [[op.offset for op in r] for r in rops]
    text, sm = ExplorerScriptSsbDecompiler(rinfos, rops, coros, ssb.PPL, DungeonModeConstants(*ssb.DMODES)).convert()
    return text, sm, offs


def chain(nodes, i, stop=64):
    """Silent nodes from i on and the visible one they lead to (None: a silent cycle)."""
    out = []
    while nodes[i][0] == "goto":
        if i in out:
            return out, None
        out.append(i)
        i = nodes[i][1]
    return out, i


def explore(A, ents_a, B, ents_b, rec):
    """All pairs of visible nodes and all pairs of silent chains. None if the systems do not agree."""
    vis, edges = {}, []
    todo = []

    def edge(x, y):
        ca, a = chain(A, x)
        cb, b = chain(B, y)
        edges.append((ca, cb, a, b))
        if (a is None) != (b is None):
            return False
        if a is None:
            return True
        if (a, b) not in vis:
            vis[(a, b)] = True
            todo.append((a, b))
        return True

    for a, b in zip(ents_a, ents_b):
        if (a is None) != (b is None):
            return None
        if a is not None and not edge(a, b):
            return None
    while todo:
        a, b = todo.pop()
        na, nb = A[a], B[b]
        if na[0] != nb[0] or na[0] == "bad" or na[1] != nb[1]:
            return None
        if na[0] == "op":
            ok = edge(na[2], nb[2])
        elif na[0] == "test":
            ok = edge(na[2], nb[2]) and edge(na[3], nb[3])
        else:
            ok = True
        if not ok:
            return None
    rec.states(len(vis))
    rec.transitions(len(edges))
    return list(vis), edges


def targets(nodes):
    """nodes something jumps to"""
    out = set()
    for n in nodes:
        if n[0] == "goto":
            out.add(n[1])
        elif n[0] == "test":
            out.add(n[2])
    return out


def own(j, nodes, jumped_to, base):
    """A Jump that directly follows an operation, is nothing else's target, in a routine that does not branch: it is never
    dissolved into other control flow. (Otherwise the decompiler may drop it and write another jump for the structure.)"""
    r = max(b for b in base if b <= j)
    end = min((b for b in base if b > j), default=len(nodes))
    straight = all(n[0] != "test" and not (n[0] == "op" and n[1][0] in SWITCHES) for n in nodes[r:end])
    return straight and j not in jumped_to and j not in base and nodes[j - 1][0] == "op"


SWITCHES = {n for n in ssb.SHAPES if n.startswith("Switch")} | {
    "message_SwitchMenu", "message_SwitchMenu2", "SwitchDirection", "SwitchDirectionLives", "SwitchDirectionLives2", "SwitchDirectionMark", "SwitchLives", "SwitchValue",
    "SwitchVariable", "main_EnterAdventure", "main_EnterRescueUser", "main_EnterTraining", "main_EnterTraining2", "message_Menu", "ProcessSpecial",
}


def place_of(node, at, pos):
    """(positions an entry may have, whether it is required, syntax) of a node of the text"""
    role, obj, _ = at[node]
    if role == "cond":
        c, clause, i = obj
        kw = pos[("if", id(clause))]
        return ([kw], True) if i == 0 else ([kw, pos[("cond", id(c))]], False)
    if role == "header":
        return [pos[("switch", id(obj))]], True
    if role == "case":
        return [pos[("casekw", id(obj))]], True
    if role == "mcase":
        return [pos[("mcase", id(obj))]], True
    return [pos[("stmt", id(obj))]], True


def check_set(rset, rec, case, start=1, gaps=(), key=None):
    infos, ops = rset
    key = key or (c02.show_infos(infos) + ssb.show_ops(ops))
    try:
        text, sm, offs = decompile(rset, start, gaps)
    except Exception as e:
        rec.outcome(f"no text: {type(e).__name__}")
        return None
    got = {}
    for o, m in iter_direct(sm):
        got[o] = (m.line, m.column)
    known = {o for r in offs for o in r}
    extra = sorted(set(got) - known)
    if extra:
        rec.violation("unknown-op", key, f"entries for {extra}, which are no ops\n{text}", case)
        return text
    if text.startswith("//?:"):
        rec.outcome("fallback")
        check_ssbs(text, sm, offs, ops, rec, key, case)
        return text
    nodes, base = ssb.machine(ops)
    n1 = c02.dm_nodes(nodes)
    ents = [b if r else None for b, r in zip(base, ops)]
    off = {}
    for b, r, os in zip(base, ops, offs):
        for k in range(len(r)):
            off[b + k] = os[k]
    # the text
    try:
        prog, rd = reader.read(text)
        track = []
        n3, ents3, infos3 = src.meaning(prog["routines"], track=track)
    except (reader.ReadError, src.Meaningless) as e:
        rec.outcome("unreadable text (C02)")
        return text
    at = track[0]
    pos = {(w, id(n)): (l, c) for w, n, l, c in rd.marks}
    stmt_pos = {(l, c) for w, n, l, c in rd.marks if w in ("stmt", "if", "switch", "casekw", "mcase", "cond")}
    ex = explore(n1, ents, c02.dm_nodes(n3), ents3, rec)
    if ex is None:
        rec.outcome("behaves differently (C02)")
        return text
    vis, edges = ex
    allowed, required, jumps = {}, set(), {}
    for a, b in vis:
        if a not in off:
            continue  # running off the end
        if b not in at:
            continue  # a return that is not written down
        ps, req = place_of(b, at, pos)
        allowed.setdefault(a, set()).update(ps)
        if req:
            required.add(a)
    n_in = targets(n1)
    uses = {}
    for ca, cb, a, b in edges:
        for y in cb:
            uses.setdefault(y, set()).update(x for x in ca if x in off)
            uses[y].add(("edge", a, b) if not ca else ca[0])
    for ca, cb, a, b in edges:
        js = [x for x in ca if x in off]
        gs = [pos[("stmt", id(at[y][1]))] for y in cb if y in at]
        for j in js:
            allowed.setdefault(j, set()).update(gs)
            mine = len(js) == len(gs) == 1 and all(uses[y] == {j} for y in cb if y in at)
            jumps[j] = jumps.get(j, own(j, n1, n_in, base)) and mine
    plain = {j for j, r in jumps.items() if r}
    required |= plain
    rec.trace()
    for n, ps in sorted(allowed.items()):
        name = n1[n][1][0] if n1[n][0] != "goto" else "Jump"
        e = got.get(off[n])
        if e is None:
            if n in required:
                rec.violation("missing", key, f"no entry for {name} (offset {off[n]}), printed at {sorted(ps)}\n{text}", case)
                return text
        elif e not in ps:
            rec.violation("position", key, f"{name} (offset {off[n]}) is mapped to {e}, printed at {sorted(ps) or 'no place'}\n{text}", case)
            return text
    for n, o in sorted(off.items()):
        if n not in allowed and o in got and got[o] not in stmt_pos:
            rec.violation("position", key, f"offset {o}, not reached, is mapped to {got[o]}, where no statement begins\n{text}", case)
            return text
    # recompiled
    try:
        c = ssb.compile_text(text)
        cinfos, cops = ssb.canon_compiled(c)
    except Exception:
        rec.outcome("not recompiled (C02)")
        return text
    lines = {}
    csm = {o: m.line for o, m in iter_direct(c.source_map)}
    n2, base2 = ssb.machine(cops)
    coff = {}
    for b, r, os in zip(base2, cops, c.routine_ops):
        for k in range(len(r)):
            coff[b + k] = os[k].offset
    ents2 = [b if r else None for b, r in zip(base2, cops)]
    ex = explore(n1, ents, c02.dm_nodes(n2), ents2, rec) if len(ents) == len(ents2) else None
    if ex is None:
        rec.outcome("recompiled differently (C02)")
        return text
    vis, edges = ex
    for a, b in vis:
        if a in off and b in coff:
            lines.setdefault(a, set()).add(csm.get(coff[b]))
    for ca, cb, a, b in edges:
        js = [x for x in ca if x in off]
        gs = [x for x in cb if x in coff]
        if len(js) == 1 and len(gs) == 1 and js[0] in plain:
            lines.setdefault(js[0], set()).add(csm.get(coff[gs[0]]))
        else:
            for j in js:
                lines.setdefault(j, set()).add("any")
    rec.trace()
    for n, ls in sorted(lines.items()):
        e = got.get(off[n])
        if e is not None and e[0] not in ls and "any" not in ls:
            name = n1[n][1][0] if n1[n][0] != "goto" else "Jump"
            rec.violation("recompiled-line", key, f"{name} (offset {off[n]}) is mapped to line {e[0]}, the compiler maps the corresponding op to line {sorted(map(str, ls))}\n{text}", case)
            return text
    return text


def iter_direct(sm):
    from explorerscript.source_map import MacroSourceMapping

    for o, m in sm:
        if not isinstance(m, MacroSourceMapping):
            yield o, m


def ssbs_places(text):
    """(name, line, column) of every op statement of a SsbScript text, in order"""
    toks = reader.tokens(text)
    places = []
    depth = par = 0
    fresh = False
    for i, t in enumerate(toks):
        if t.kind in ("str", "mstr"):
            continue
        if t.text == "{":
            if not par:
                depth += 1
                fresh = True
        elif t.text == "}":
            if not par:
                depth -= 1
        elif t.text == "(":
            par += 1
        elif t.text == ")":
            par -= 1
        elif t.text == ";" and not par:
            fresh = True
        elif depth and not par and fresh:
            fresh = False
            if toks[i + 1].text == "(":
                places.append((t.text, t.line, t.col))
    return places


def check_ssbs(text, sm, offs, ops, rec, key, case):
    """SsbScript: every op is its own statement, in order."""
    got = {o: (m.line, m.column) for o, m in iter_direct(sm)}
    places = ssbs_places(text)
    flat = [(o, op[0]) for os, r in zip(offs, ops) for o, op in zip(os, r)]
    if [n for _, n in flat] != [n for n, _, _ in places]:
        rec.outcome("text has other ops (C07)")
        return
    rec.states(len(flat))
    rec.trace()
    want = {o: (l, c) for (o, _), (_, l, c) in zip(flat, places)}
    if got != want:
        bad = [(o, got.get(o), want.get(o)) for o in sorted(set(got) | set(want)) if got.get(o) != want.get(o)]
        rec.violation("ssbscript", key, f"(offset, mapped to, printed at): {bad[:5]}\n{text}", case)
        return
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    try:
        if text.startswith("//?:"):
            c = ssb.compile_text(text)
        else:
            c = c07.compile_ssbs(text)
    except Exception:
        rec.outcome("not recompiled (C07)")
        return
    csm = {o: m.line for o, m in iter_direct(c.source_map)}
    back = [csm.get(op.offset) for r in c.routine_ops for op in r]
    rec.trace()
    if back != [want[o][0] for o, _ in flat]:
        rec.violation("ssbscript-recompiled-line", key, f"compiled lines {back}, printed at {[want[o] for o, _ in flat]}\n{text}", case)


def check_ssbs_set(rset, rec, case, start=1, gaps=()):
    from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

    rinfos, rops, coros = ssb.build(rset, start, gaps)
    offs = [[op.offset for op in r] for r in rops]
    key = "SsbScript\n" + c02.show_infos(rset[0]) + ssb.show_ops(rset[1])
    try:
        text, sm = SsbScriptSsbDecompiler(rinfos, rops, coros).convert()
    except Exception as e:
        rec.outcome(f"no text: {type(e).__name__}")
        return
    check_ssbs(text, sm, offs, rset[1], rec, key, case)


# ---- spaces -------------------------------------------------------------------------------------------------------------
def run_ops(case, rec):
    lst, cuts = case
    rset = c02.realize(lst, cuts)
    check_set(rset, rec, case, 1, ())
    n = len(lst)
    check_set(rset, rec, case, 5, (0, n // 2), key="offsets 5.. with gaps\n" + c02.show_infos(rset[0]) + ssb.show_ops(rset[1]))
    check_ssbs_set(rset, rec, case)


def op_space(name, alphabet, lo, hi, nr=1, reach=None):
    s = c02.op_space(name, alphabet, lo, hi, nr, reach)
    s.run = run_ops
    s.timeout = 10
    return s


def run_prog(routines, rec):
    try:
        rset = ssb.canon_compiled(ssb.compile_text(src.render(routines)))
    except Exception:
        rec.outcome("source rejected")
        return
    if not ssb.well_formed(rset[1], True) or not ssb.proper(rset[1]):
        rec.outcome("not well-formed")
        return
    check_set(rset, rec, routines, key=src.render(routines))
    check_ssbs_set(rset, rec, routines)


def body_space(name, feats, labels, lo, hi, depth=3):
    s = c02.body_space(name, feats, labels, lo, hi, depth)
    s.run = run_prog
    s.timeout = 20
    return s


TEXTS = ("one", "a\nb", "a\n\nb\n", "\n", "it's\n\"q\"", "end'''\n\"\"\"")
NAMES = ("m", "two\nlines")


def text_cases():
    """Multi-line values in every kind of statement, at every nesting depth, before other statements."""
    I, C = src.I, src.C
    x = ("op", "x", (), None)
    y = ("op", "y", (I(2),), None)
    Q = ("cmp", C("$Q"), "==", I(1), False)
    for t in TEXTS:
        s, l, l2 = ("s", t), ("l", (("english", t), ("french", "f"))), ("l", (("a", t), ("b", t)))
        for v in (s, l, l2, ("p", t, 0, 2, 1, 2)):
            isp = v[0] == "p"
            stmts = [
                (("op", "a", (v,), None),),
                (("op", "a", (v, I(1), v), None),),
                (("op", "a", (I(1), v), ("actor", I(3))),),
                (("with", "object", C("O"), ("op", "a", (v,), None)),),
                (("if", ((0, (("cop", "BranchSum", (v,)),) if False else (Q,), (("op", "a", (v,), None),)),), (("op", "b", (v,), None),)),),
                (("op", "a", (v,), None), ("op", "b", (v,), None), ("op", "a", (v,), None)),
                (("switch", ("hop", "message_Menu", (v,)), ((("v", I(1)), (("op", "a", (v,), None), ("break",))), (None, (x,)))),),
                (("switch", ("hop", "ProcessSpecial", (I(1), v, I(2))), ((("v", I(1)), (x, ("break",))),)),),
                (("forever", (("op", "a", (v,), None), ("if", ((0, (Q,), (("break_loop",),)),), None))),),
                (("label", "a"), ("op", "a", (v,), None), ("jump", "a")),
            ]
            if not isp:
                stmts += [
                    (("switch", ("hop", "message_SwitchMenu", (I(1), I(2))), ((("menu", v), (x, ("break",))), (("menu", v), (y,)), (None, (x,)))),),
                    (("switch", ("hop", "message_SwitchMenu", (I(1), I(2))), ((("menu", v), ()), (("menu", v), (y, ("break",))))),),
                    (("mswitch", "Talk", C("$T"), ((I(1), v), (I(2), v), (None, v))),),
                    (("mswitch", "Monologue", C("$T"), ((I(1), v),)),),
                    (("mswitch", "Monologue", C("$T"), ((None, v),)),),
                ]
            for st in stmts:
                for body in (
                    st + (x, y),
                    (x,) + st,
                    (("if", ((0, (Q,), st + (x,)),), (y,)), x),
                    (("if", ((0, (Q,), (x,)), (1, (("kw", 0, "debug"),), st)), st), y),
                    (("switch", ("var", C("$X")), ((("v", I(1)), (x,)), (("cop", ">", I(2), False), st + (("break",),)), (None, st))), y),
                    (("forever", (("if", ((0, (Q,), (y, ("break_loop",))),), None),) + st), x),
                ):
                    yield (("generic", 0, None, None, body), ("generic", 1, None, None, (x, y)))


def name_sets():
    """Message switches and fixed operations written directly as ops: what no program compiles to."""
    for t in TEXTS:
        for v in (("s", t), ("l", (("english", t),))):
            for r in (
                (("message_SwitchTalk", (("c", "$T"),), None), ("CaseText", (("i", 1), v), None), ("DefaultText", (v,), None), ("CaseText", (("i", 2), v), None), ("Return", (), None)),
                (("CaseText", (("i", 1), v), None), ("o", (v,), None), ("Return", (), None)),
                (("lives", (("i", 1),), None), ("o", (v, v), None), ("o", (), None), ("End", (), None)),
                (("message_Menu", (v, v), None), ("CaseMenu", (v,), (0, 3)), ("CaseMenu", (v,), (0, 4)), ("o", (v,), None), ("Hold", (), None)),
            ):
                yield (("generic", None, None),) * 2, (r, (("p", (), None), ("Return", (), None)))


def run_set(rset, rec):
    check_set(rset, rec, rset)
    check_ssbs_set(rset, rec, rset)


def spaces(tier):
    q = tier == "quick"
    S = runner.Space
    out = [
        op_space("ops1", "orbj", 1, 4),
        op_space("switch", "SKorj", 2, 5, reach=5),
        op_space("ops2", "orbj", 2, 3 if q else 4, nr=2),
        op_space("ends", "orehxcbj", 1, 3),
        body_space("struct", "or2inExsd", (), 1, 3 if q else 4),
        body_space("loops", "orixfwFs", (), 1, 4),
        body_space("jumps", "orljcixs", ("a",), 1, 4 if q else 5),
        S("routine webs", lambda: deep.routine_webs(6 if q else 12), run_prog, "2..6 (thorough 12) routines that jump to, branch to and call each other", timeout=20),
        S("deep", lambda: c02.one(deep.programs(2 if q else 3, 8 if q else 16)), run_prog, "chains of 2 (thorough 3) nested blocks of 15 kinds, repeated constructs, label webs", timeout=20),
        S("routines", lambda: (rs for n in (1, 2) for rs in forms.routine_programs(n)), run_prog, "programs of 1..2 routines over kinds, targets, coroutines, aliases, cross-routine jumps/calls"),
        S("forms", lambda: c02.form_cases(q), run_prog, "every condition/statement/switch form in every place"),
        S("texts", text_cases, run_prog, "multi-line strings, language strings and position marks in every kind of statement x nesting", timeout=30),
        S("text-ops", name_sets, run_set, "multi-line values in op sequences no program compiles to", timeout=30),
    ]
    if not q:
        out += [
            op_space("ops1-5", "orbj", 5, 5, reach=5),
            op_space("ops1-6", "obj", 6, 6, reach=6),
            op_space("switch6", "SKoj", 6, 6, reach=6),
        ]
    return out


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
