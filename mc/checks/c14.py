"""C14: source maps survive storage and offset rewriting.

Explicit-state exploration: an abstract source map (plain dictionaries) is the model state, the operations are
store+reload (plain and pretty) and rewrite(mapping); every operation is applied to the real SourceMap and the whole
observable state is compared with the model after every step.
"""
from __future__ import annotations

import copy
import sys
from itertools import combinations, product

from explorerscript.source_map import MacroSourceMapping, SourceMap, SourceMapBuilder, SourceMapPositionMark, SourceMapping

from mc import macros, runner, src, ssb

PROPERTY = "C14"


# abstract map: (direct, macro, marks, mmarks)
#   direct: ((offset, line, col), ...)  macro: ((offset, file, name, line, col, called_in, ret, params), ...)
#   marks: (9-tuple, ...)               mmarks: ((file, name, 9-tuple), ...)
def observe(m):
    direct = {}
    macro = {}
    for off, e in m:
        if isinstance(e, MacroSourceMapping):
            if m.get_op_line_and_col__macros(off) is not e:
                return "iteration and __macros lookup disagree"
            macro[off] = (e.relpath_included_file, e.macro_name, e.line, e.column,
                          e.called_in if e.called_in is None else (type(e.called_in).__name__,) + tuple(e.called_in),
                          e.return_addr, tuple(e.parameter_mapping.items()))
        elif isinstance(e, SourceMapping):
            if m.get_op_line_and_col__direct(off) is not e or m.get_op_line_and_col(off) is not e:
                return "iteration and lookup disagree"
            direct[off] = (e.line, e.column)
        else:
            return f"entry {e!r}"
    if dict(m.collect_mappings__macros()).keys() != macro.keys():
        return "collect_mappings__macros disagrees"
    mk = lambda p: (p.line_number, p.column_number, p.end_line_number, p.end_column_number, p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)
    return (direct, macro, tuple(mk(p) for p in m.get_position_marks__direct()),
            tuple((a, b, mk(p)) for a, b, p in m.get_position_marks__macros()))


def model_of(a):
    d, mc_, marks, mmarks = a
    return (
        {o: (l, c) for o, l, c in d},
        {o: (f, n, l, c, None if ci is None else ("tuple",) + ci, r, tuple(ps)) for o, f, n, l, c, ci, r, ps in mc_},
        tuple(marks), tuple(mmarks),
    )


def real_of(a):
    d, mc_, marks, mmarks = a
    return SourceMap(
        {o: SourceMapping(l, c) for o, l, c in d},
        [SourceMapPositionMark(*m) for m in marks],
        {o: MacroSourceMapping(f, n, l, c, ci, r, dict(ps)) for o, f, n, l, c, ci, r, ps in mc_},
        [(f, n, SourceMapPositionMark(*m)) for f, n, m in mmarks],
    )


def model_rewrite(state, mapping):
    """The new state; return addresses without any surviving op at or after them may stay anything (None marker)."""
    d, m, p, q = state
    nd = {mapping[o]: v for o, v in d.items() if o in mapping}
    nm = {}
    for o, v in m.items():
        if o not in mapping:
            continue
        r = v[5]
        if r is not None and r != ANY:
            later = [k for k in mapping if k >= r]
            r = mapping[min(later)] if later else ANY
        nm[mapping[o]] = v[:5] + (r,) + v[6:]
    return (nd, nm, p, q)


ANY = "<unconstrained>"


def agrees(model, real):
    if isinstance(real, str):
        return real
    if model == real:
        return None
    if model[0] != real[0]:
        return f"op entries: expected {model[0]}, got {real[0]}"
    if model[2:] != real[2:]:
        return f"position marks: expected {model[2:]}, got {real[2:]}"
    if model[1].keys() != real[1].keys():
        return f"macro entries for {sorted(model[1])} expected, got {sorted(real[1])}"
    for o, v in model[1].items():
        w = real[1][o]
        if v == w or (v[5] == ANY and v[:5] + v[6:] == w[:5] + w[6:]):
            continue
        return f"macro entry of op {o}: expected {v}, got {w}"
    return None


def store(m, pretty):
    text = m.serialize(pretty=True) if pretty else m.serialize()
    n = SourceMap.deserialize(text)
    if n.serialize(pretty=pretty) != text:
        return n, "serialising again gives another text"
    if not (n == m and m == n) or n != m:
        return n, "the map read back does not compare equal"
    return n, None


def step(real, model, action, rec):
    """(real', model', error)"""
    rec.transitions(1)
    if action in ("store", "pretty"):
        before = observe(real)
        n, err = store(real, action == "pretty")
        if err is None and observe(real) != before:
            err = "storing changed the map"
        if err is None and isinstance(before, tuple):
            err = agrees(before, observe(n))
        return n, model, err
    real.rewrite_offsets(dict(action))
    model = model_rewrite(model, dict(action))
    return real, model, agrees(model, observe(real))


def run_seq(a, actions, rec, key=None):
    real, model = real_of(a), model_of(a)
    err = agrees(model, observe(real))
    done = []
    if err is None:
        for act in actions:
            done.append(act)
            try:
                real, model, err = step(real, model, act, rec)
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
            if err:
                break
            if any(v[5] == ANY for v in model[1].values()):
                # adopt what the implementation left there, it is not constrained
                o = observe(real)
                model = (model[0], {k: v if v[5] != ANY else o[1][k] for k, v in model[1].items()}, *model[2:])
    rec.states(1 + len(done))
    rec.trace()
    if err:
        rec.violation("source-map", key or repr((a, done)), f"{a}\nafter {done}: {err}")


# ---- spaces ----------------------------------------------------------------------------------------------------
OFFS = (0, 1, 2, 3, 4)


def small_maps(k):
    def entries(o):
        yield ("d", (o, 10 + o, o))
        for r in (None, 0, 1, 2, 3, 4, 5, 6):
            yield ("m", (o, None if o % 2 else "f.exps", f"m{o}", 20 + o, o, (None, 1, 2) if r and r % 2 else None, r, (("$a", "x"),)))

    for n in range(0, k + 1):
        for os_ in combinations(OFFS, n):
            for es in product(*(list(entries(o)) for o in os_)):
                yield (tuple(e for t, e in es if t == "d"), tuple(e for t, e in es if t == "m"), (), ())


def mappings(n):
    """Every surviving subset of 0..n-1, several new numberings."""
    for mask in range(1 << n):
        alive = [i for i in range(n) if mask >> i & 1]
        yield tuple((o, i) for i, o in enumerate(alive))  # compaction from 0
        yield tuple((o, 3 * i + 7) for i, o in enumerate(alive))
        yield tuple((o, o + 1) for o in alive)  # overlaps with old numbers
        yield tuple((o, len(alive) - i) for i, o in enumerate(alive))  # order not preserved


ALL6 = list(mappings(6))


def run_rewrite(a, rec):
    if not rec.samples:
        rec.sample(repr(a))
    for mp in ALL6:
        run_seq(a, (mp,), rec)
        run_seq(a, ("store", mp, "store"), rec)
        rec.count("sequences", 2)


SEQ_ACTIONS = ("store", "pretty", ((0, 0), (1, 1), (3, 2), (4, 3), (5, 4)), ((0, 4), (1, 0), (2, 8), (3, 2), (4, 6), (5, 9), (6, 10), (8, 1)), ((1, 0), (2, 1), (3, 2)), ())


def run_sequences(case, rec):
    a, n = case
    if not rec.samples:
        rec.sample(repr(a))
    for k in range(1, n + 1):
        for acts in product(SEQ_ACTIONS, repeat=k):
            run_seq(a, acts, rec)
            rec.count("sequences")


STRS = ("", "a.exps", "../d/ä 名.exps", "q\"'\\", "new\nline\tx", "\ud800", "0", "null")


def field_maps():
    mark = (1, 2, 3, 4, "n", 0, 2, 5, 6)
    for s, t in product(STRS, repeat=2):
        for ci in (None, (None, 0, 0), (s, 7, 1), (t, 123456, 70000)):
            for ps in ((), (("$x", s),), (("$x", 5), ("$y", t), ("$z", -1))):
                for f in (None, s):
                    yield ((), ((5, f, t, 3, 4, ci, 9, ps),), (), ((f, t, mark), (None, s, mark)))
    for s in STRS:
        for xo, yo in product((0, 2, 3, 4), repeat=2):
            for x, y in ((0, 0), (-1, 2), (255, 1000), (-128, -3)):
                m = (0, 0, 10, 99999, s, xo, yo, x, y)
                yield (((0, 0, 0), (2**31, 5, 99999)), (), (m, mark, m), ((s, s, m),))
    for n in range(0, 4):  # several marks, order kept, duplicates kept
        for ms in product((mark, (1, 2, 3, 4, "o", 0, 2, 5, 6), (9, 9, 9, 9, "n", 2, 0, -5, 6)), repeat=n):
            yield (((7, 1, 1), (3, 2, 2), (5, 3, 3)), (), ms, tuple(("f", "m", x) for x in reversed(ms)))
    # order of the entries as inserted, keys as large numbers
    for perm in ((1, 10, 2), (10, 2, 1), (100, 20, 3)):
        yield (tuple((o, o, 0) for o in perm), tuple((o + 1, None, "m", o, 0, None, o + 2, ()) for o in perm), (), ())


def run_fields(a, rec):
    if not rec.samples:
        rec.sample(repr(a))
    run_seq(a, ("store", "pretty", "store"), rec)


def programs():
    for n in (1, 2, 3):
        yield from macros.graph_programs(n)
    yield from ((ms, rs) for _, ms, rs in macros.param_programs() if True)


def run_real(case, rec):
    ms, routines = case
    text = src.render({"macros": ms, "routines": routines})
    if not rec.samples:
        rec.sample(text)
    try:
        c = ssb.compile_text(text)
    except Exception:
        rec.outcome("rejected")
        return
    m = c.source_map
    o = observe(m)
    if isinstance(o, str):
        rec.violation("source-map", text, o)
        return
    offs = sorted(op.offset for r in c.routine_ops for op in r)
    a = (tuple((k, *v) for k, v in o[0].items()),
         tuple((k, v[0], v[1], v[2], v[3], None if v[4] is None else v[4][1:], v[5], v[6]) for k, v in o[1].items()), o[2], o[3])
    # the object the compiler made itself
    n, err = store(m, False)
    if err is None:
        err = agrees(o, observe(n))
    if err:
        rec.violation("source-map", text, err)
        return
    rec.outcome("compiled")
    # every set of surviving ops (all of up to 7 ops; beyond that all-but-one, prefixes, suffixes)
    if len(offs) <= 7:
        subsets = [[x for i, x in enumerate(offs) if mask >> i & 1] for mask in range(1 << len(offs))]
    else:
        subsets = [offs] + [offs[:i] + offs[i + 1:] for i in range(len(offs))] + [offs[i:] for i in range(len(offs))] + [offs[:i] for i in range(len(offs))]
    for alive in subsets:
        mp = tuple((x, 4 * i) for i, x in enumerate(alive))
        real = SourceMap.deserialize(m.serialize())
        real, model, err = step(real, o, mp, rec)
        rec.trace()
        rec.states(2)
        if err is None:
            n, err = store(real, False)
        if err:
            rec.violation("source-map", text + repr(mp), err)
            return
    before = observe(m)
    mp = tuple((x, 4 * i) for i, x in enumerate(offs))
    real, model, err = step(m, o, mp, rec)
    if err:
        rec.violation("source-map", text + "in place", err)


def spaces(tier):
    q = tier == "quick"
    return [
        runner.Space("rewrite", lambda: small_maps(2 if q else 3), run_rewrite, "all maps with <= 2 (thorough 3) entries on 5 offsets (direct, or macro with return address none/0..6) x all 64 surviving sets of 6 ops x 4 renumberings, alone and between two store+reload", chunk=4),
        runner.Space("sequences", lambda: ((a, 3 if q else 4) for a in small_maps(1 if q else 2)), run_sequences, "all operation sequences of length <= 3 (thorough 4) over 2 store variants and 4 rewrites, from every map with <= 1 (thorough 2) entries", chunk=4),
        runner.Space("fields", field_maps, run_fields, "every field of every entry kind over extreme values and strings"),
        runner.Space("compiled", programs, run_real, "maps of compiled macro programs (call graphs of <= 3 macros, every parameter position) x every surviving op set (<= 7 ops; else all-but-one, prefixes, suffixes)", chunk=8),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
