"""SSB side: parameter values, building/reading routine sets, the machine model.

The tables here are this framework's own (from the property statements and the language specification);
they are deliberately not imported from the code under test.
"""
from __future__ import annotations

from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
from explorerscript.ssb_converting.ssb_data_types import (
    DungeonModeConstants,
    SsbCoroutine,
    SsbOpCode,
    SsbOperation,
    SsbOpParamConstant,
    SsbOpParamConstString,
    SsbOpParamFixedPoint,
    SsbOpParamLanguageString,
    SsbOpParamPositionMarker,
    SsbRoutineInfo,
    SsbRoutineType,
)
from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

PPL = "$PERFORMANCE_PROGRESS_LIST"
DMODES = ("DMODE_CLOSED", "DMODE_OPEN", "DMODE_REQUEST", "DMODE_OPEN_AND_REQUEST")

CASE_OPS = {"Case", "CaseMenu", "CaseMenu2", "CaseValue", "CaseVariable", "CaseScenario"}
BRANCH_OPS = {
    "Branch", "BranchBit", "BranchDebug", "BranchEdit", "BranchExecuteSub", "BranchPerformance", "BranchScenarioNow",
    "BranchScenarioNowAfter", "BranchScenarioNowBefore", "BranchScenarioAfter", "BranchScenarioBefore", "BranchSum",
    "BranchValue", "BranchVariable", "BranchVariation",
}
TEST_OPS = CASE_OPS | BRANCH_OPS | {"Call"}
JUMP_OPS = TEST_OPS | {"Jump"}
END_OPS = {"Return", "End", "Hold", "JumpCommon", "Destroy"}
CTX_OPS = {"lives", "object", "performer"}


# ---- parameters -------------------------------------------------------------------------------------------
def fixed_norm(s):
    """Numeric value of a fixed point literal, keeping the sign of zero (the engine treats -0.0 as given)."""
    s = str(s)
    neg = s.startswith("-")
    s = s.lstrip("-")
    whole, _, fract = s.partition(".")
    whole = whole.lstrip("0") or "0"
    fract = fract.rstrip("0") or "0"
    return ("-" if neg else "") + whole + "." + fract


def norm(p):
    """Hashable canonical value of a parameter."""
    if isinstance(p, bool):
        return ("?", repr(p))
    if isinstance(p, int):
        return ("i", p)
    if isinstance(p, SsbOpParamConstant):
        return ("c", p.name)
    if isinstance(p, SsbOpParamFixedPoint):
        return ("f", fixed_norm(p.value))
    if isinstance(p, SsbOpParamConstString):
        return ("s", p.name)
    if isinstance(p, SsbOpParamLanguageString):
        return ("l", tuple(sorted(p.strings.items())))
    if isinstance(p, SsbOpParamPositionMarker):
        return ("p", p.name, 2 if p.x_offset > 1 else 0, 2 if p.y_offset > 1 else 0, p.x_relative, p.y_relative)
    return ("?", type(p).__name__, repr(p))


def mkparam(v):
    """Inverse of norm for fresh parameter objects."""
    k = v[0]
    if k == "i":
        return v[1]
    if k == "c":
        return SsbOpParamConstant(v[1])
    if k == "f":
        return SsbOpParamFixedPoint.from_str(v[1])
    if k == "s":
        return SsbOpParamConstString(v[1])
    if k == "l":
        return SsbOpParamLanguageString(dict(v[1]))
    if k == "p":
        return SsbOpParamPositionMarker(*v[1:])
    raise ValueError(v)


# ---- routine sets ------------------------------------------------------------------------------------------
# canonical routine set: (infos, ops): infos = tuple of (kind, target, coroname|None)
#   kind in generic/actor/object/performer/coro, target = int | constant name | None
#   ops = tuple per routine of (name, params, target) - target: (routine, index) of the op jumped to, or None
KINDS = {
    SsbRoutineType.GENERIC: "generic",
    SsbRoutineType.ACTOR: "actor",
    SsbRoutineType.OBJECT: "object",
    SsbRoutineType.PERFORMER: "performer",
    SsbRoutineType.COROUTINE: "coro",
}
RKINDS = {v: k for k, v in KINDS.items()}


def info_of(info, coro):
    if info is None:
        return ("none", None, None)
    kind = KINDS.get(info.type, str(info.type))
    target = None
    if kind in ("actor", "object", "performer"):
        target = info.linked_to_name if info.linked_to_name else info.linked_to
    return (kind, target, coro if kind == "coro" else None)


def coro_name(c):
    if isinstance(c, str):
        return c
    if c is None or c == []:
        return None
    return getattr(c, "name", None)


def infos_of(infos, coros):
    out = []
    for i, info in enumerate(infos):
        c = coros[i] if i < len(coros) else None
        out.append(info_of(info, coro_name(c)))
    return tuple(out)


def opname(op):
    return op.op_code.name


def split_op(op):
    """(name, normalized non-jump params, jump offset | None)"""
    name = op.op_code.name
    ps = list(op.params)
    if name in JUMP_OPS and ps and isinstance(ps[-1], int) and not isinstance(ps[-1], bool):
        return name, tuple(norm(p) for p in ps[:-1]), ps[-1]
    return name, tuple(norm(p) for p in ps), None


def build(rset, start=1, gaps=()):
    """Fresh objects for a routine set in the form a binary reader delivers: increasing offsets.

    gaps: indices (flat) after which an offset is skipped.
    """
    infos, ops = rset
    off = {}
    n = start
    flat = 0
    for ri, r in enumerate(ops):
        for oi in range(len(r)):
            off[(ri, oi)] = n
            n += 1 + (1 if flat in gaps else 0)
            flat += 1
    rops = []
    for ri, r in enumerate(ops):
        lst = []
        for oi, (name, params, tgt) in enumerate(r):
            ps = [mkparam(p) for p in params]
            if tgt is not None:
                ps.append(off[tuple(tgt)])
            lst.append(SsbOperation(off[(ri, oi)], SsbOpCode(-1, name), ps))
        rops.append(lst)
    rinfos = []
    coros = []
    for ri, (kind, target, cname) in enumerate(infos):
        if kind in ("actor", "object", "performer"):
            if isinstance(target, str):
                rinfos.append(SsbRoutineInfo(RKINDS[kind], -1, target))
            else:
                rinfos.append(SsbRoutineInfo(RKINDS[kind], target))
        else:
            rinfos.append(SsbRoutineInfo(RKINDS[kind], 0))
        coros.append(SsbCoroutine(ri, cname if cname is not None else "n/a"))
    if flat % 2:
        # The table is keyed by the id: it need not list other routines, nor be in order.
        coros = [c for c, (kind, _, _) in zip(coros, infos) if kind == "coro"][::-1]
    return rinfos, rops, coros


def canon(infos, coros, rops):
    """Canonical routine set of a compile result / decompiler input. Raises ValueError if not closed."""
    off = {}
    for ri, r in enumerate(rops):
        for oi, op in enumerate(r):
            if op.offset in off:
                raise ValueError(f"offset {op.offset} is used twice")
            off[op.offset] = (ri, oi)
    ops = []
    for r in rops:
        lst = []
        for op in r:
            name, params, tgt = split_op(op)
            if tgt is not None:
                if tgt not in off:
                    raise ValueError(f"{name} jumps to {tgt}, which is no op")
                tgt = off[tgt]
            lst.append((name, params, tgt))
        ops.append(tuple(lst))
    return infos_of(infos, coros), tuple(ops)


def machine(ops):
    """LTS of canonical ops. Returns (nodes, entry per routine)."""
    nodes = []
    base = []
    for r in ops:
        base.append(len(nodes))
        nodes += [None] * (len(r) + 1)
    for ri, r in enumerate(ops):
        b = base[ri]
        for oi, (name, params, tgt) in enumerate(r):
            nxt = b + oi + 1
            i = b + oi
            if name in JUMP_OPS:
                if tgt is None:
                    nodes[i] = ("bad", f"{name} without target")
                    continue
                t = base[tgt[0]] + tgt[1]
                if name == "Jump":
                    nodes[i] = ("goto", t)
                else:
                    # CaseScenario is how the compiler spells CaseValue in a SwitchScenario
                    nodes[i] = ("test", ("CaseValue" if name == "CaseScenario" else name, params), t, nxt)
            elif name in END_OPS:
                nodes[i] = ("end", (name, params))
            elif name in CTX_OPS and oi + 1 < len(r) and r[oi + 1][0] in END_OPS and r[oi + 1][0] != "JumpCommon":
                nodes[i] = ("op", (name, params), len(nodes))
                nodes.append(("end", r[oi + 1][:2], nxt + 1))
            else:
                nodes[i] = ("op", (name, params), nxt)
        nodes[b + len(r)] = ("end", ("Return", ()))
    return nodes, base


def well_formed(ops, may_fall_off=False):
    """The quantifier of C02/C06: targets in range, every path ends in a flow-ending op, no Jump-only cycle."""
    for ri, r in enumerate(ops):
        for name, params, tgt in r:
            if name in JUMP_OPS:
                if tgt is None or tgt[0] >= len(ops) or tgt[1] >= len(ops[tgt[0]]):
                    return False
        if r and not may_fall_off:
            name = r[-1][0]
            # every path ends in a flow-ending op: the last op must not fall through
            if name not in END_OPS and name != "Jump":
                return False
            if len(r) > 1 and r[-2][0] in CTX_OPS:
                return False  # the last op runs in another entity's context
    for ri, r in enumerate(ops):
        for oi, (name, params, tgt) in enumerate(r):
            if name == "Jump":
                seen = set()
                p = (ri, oi)
                while True:
                    if p in seen:
                        return False
                    seen.add(p)
                    o = ops[p[0]][p[1]]
                    if o[0] != "Jump":
                        break
                    p = o[2]
    return True


# ---- operand shapes ------------------------------------------------------------------------------------------
# Fixed-arity operations with the operand kinds their binary encoding has: v = variable or value (int or constant,
# fixed point), i = plain integer, b = 0 or 1, q = condition operator, c = assignment operator, s = string or constant.
SHAPES = {
    "Branch": "vv", "BranchBit": "vi", "BranchDebug": "b", "BranchEdit": "b", "BranchVariation": "b",
    "BranchPerformance": "ib", "BranchScenarioNow": "vii", "BranchScenarioNowAfter": "vii",
    "BranchScenarioNowBefore": "vii", "BranchScenarioAfter": "vii", "BranchScenarioBefore": "vii",
    "BranchValue": "vqv", "BranchVariable": "vqv", "BranchSum": "vqv", "BranchExecuteSub": "v",
    "Case": "v", "CaseValue": "qv", "CaseVariable": "qv", "CaseScenario": "qv", "CaseMenu": "s", "CaseMenu2": "v",
    "CaseText": "vs", "DefaultText": "s",
    "Switch": "v", "SwitchScenario": "v", "SwitchScenarioLevel": "v", "SwitchRandom": "v", "SwitchDungeonMode": "v",
    "SwitchSector": "", "message_SwitchTalk": "v", "message_SwitchMonologue": "v",
    "Return": "", "End": "", "Hold": "", "Jump": "", "Call": "",
    "lives": "v", "object": "v", "performer": "v",
    "flag_CalcBit": "viv", "flag_CalcValue": "vcv", "flag_CalcVariable": "vcv", "flag_Clear": "v", "flag_Initial": "v",
    "flag_Set": "vv", "flag_ResetDungeonResult": "", "flag_ResetScenario": "v", "flag_SetAdventureLog": "v",
    "flag_SetDungeonMode": "vv", "flag_SetPerformance": "iv", "flag_SetScenario": "vii",
}
SHAPE_OK = {
    "v": lambda p: p[0] in ("i", "c", "f"),
    "i": lambda p: p[0] == "i",
    "b": lambda p: p in (("i", 0), ("i", 1)),
    "q": lambda p: p[0] == "i" and 0 <= p[1] <= 10,
    "c": lambda p: p[0] == "i" and 0 <= p[1] <= 4,
    "s": lambda p: p[0] in ("s", "l"),
}


def proper(ops):
    """Whether every fixed-arity operation has the operands its encoding has room for."""
    for r in ops:
        for name, params, tgt in r:
            if (name in JUMP_OPS) != (tgt is not None):
                return False
            if name in SHAPES:
                sh = SHAPES[name]
                if len(sh) != len(params) or not all(SHAPE_OK[k](p) for k, p in zip(sh, params)):
                    return False
                if name in ("BranchBit", "flag_CalcBit") and params[0] == ("c", PPL):
                    return False  # that variable has its own operations
    return True


# ---- the code under test -----------------------------------------------------------------------------------
def compile_text(text, file_name="/nonexistent/main.exps", lookup=None, compiler=None):
    c = compiler or ExplorerScriptSsbCompiler(PPL, list(lookup or []))
    c.compile(text, file_name)
    return c


def canon_compiled(c):
    return canon(c.routine_infos, c.named_coroutines, c.routine_ops)


def decompile(rset, start=1, gaps=()):
    rinfos, rops, coros = build(rset, start, gaps)
    d = ExplorerScriptSsbDecompiler(rinfos, rops, coros, PPL, DungeonModeConstants(*DMODES))
    return d.convert()


def show_ops(ops):
    out = []
    for ri, r in enumerate(ops):
        for oi, (name, params, tgt) in enumerate(r):
            out.append(f"{ri}.{oi}: {name}({', '.join(repr(p[1]) if len(p) == 2 else repr(p) for p in params)})" + (f" -> {tgt[0]}.{tgt[1]}" if tgt else ""))
    return "\n".join(out)
