"""C08: the source map of the compiler.

Every enumerated program is really compiled (with its imported files on disk). This framework's own reader reads the same texts
and knows where every construct begins; the specification LTS of the program carries, for every node, the construct and the chain
of macro calls it stems from. The product of the compiled machine with that LTS is explored, and on every reached pair the
source-map entry of the compiled op is compared with the construct it was paired with.
"""
from __future__ import annotations

import os
import shutil
import sys
import tempfile
from itertools import islice

from mc import deep, forms, gen, macros, reader, runner, src, ssb
from mc.checks import c02, c05, c07, c09
from mc.src import C, I

PROPERTY = "C08"
ASSUMPTIONS = [
    "an entry of an op for a condition/switch header/case may be where its expression, its header or its statement begins",
    "a Jump the compiler adds for a structure may be mapped to the beginning of any structure or jump statement of the same body; an added Return to anything in the compiled file",
    "on an op that is the first of several nested expansions, the position of the innermost call is expected (the entry names that macro)",
]


class File:
    def __init__(self, path, text):
        self.path = path
        self.text = text
        self.prog, rd = reader.read(text)
        self.pos = {(w, id(n)): (l, c) for w, n, l, c in rd.marks}
        self.posmarks = rd.posmarks
        self.bodies = {}  # macro name / None -> (anything that begins there, structures and jumps)
        owner = {}

        def own(x, who):
            if isinstance(x, tuple):
                owner[id(x)] = who
                for y in x:
                    own(y, who)

        for m in self.prog["macros"]:
            own(m[2], m[0])
        for r in self.prog["routines"]:
            own(r[4], None)
        for w, n, l, c in rd.marks:
            who = owner.get(id(n))
            a, s = self.bodies.setdefault(who, (set(), set()))
            a.add((l, c))
            if w in ("if", "else", "block", "switch", "casekw", "default", "loop", "cond", "header", "case") or n[0] in ("jump", "break", "continue", "break_loop", "ret", "macro"):
                s.add((l, c))


def places(role, obj, pos):
    if role == "cond":
        c, clause, _ = obj
        return {pos.get(k) for k in (("cond", id(c)), ("if", id(clause)), ("loop", id(clause)))} - {None}
    if role == "header":
        return {pos.get(k) for k in (("header", id(obj[1])), ("switch", id(obj)))} - {None}
    if role == "case":
        return {pos.get(k) for k in (("case", id(obj)), ("casekw", id(obj)))} - {None}
    if role == "mcase":
        return {pos[("mcase", id(obj))]}
    return {pos[("stmt", id(obj))]}


def check(files, main, rec, key, case=None, lookup=None):
    """files: path -> text (absolute paths, all on disk except possibly main)"""
    try:
        c = ssb.compile_text(files[main], main, lookup)
    except Exception as e:
        rec.outcome(f"rejected {type(e).__name__}")
        return
    fs = {}
    deffile = {}
    ms = {}
    for p, t in files.items():
        f = fs[p] = File(p, t)
        for m in f.prog["macros"]:
            deffile[m[0]] = p
            ms[m[0]] = m
    track = []
    try:
        spec, ents, _ = src.meaning(fs[main].prog["routines"], list(ms.values()), track=track)
    except src.Meaningless:
        rec.outcome("meaningless")
        return
    at = track[0]
    try:
        _, cops = ssb.canon_compiled(c)
    except Exception as e:
        rec.outcome(f"not a routine set (C03): {type(e).__name__}")
        return
    nodes, base = ssb.machine(cops)
    sm = c.source_map
    ents1 = [b if r else None for b, r in zip(base, cops)]
    off, names = {}, {}
    for b, r, os_ in zip(base, cops, c.routine_ops):
        for k in range(len(r)):
            off[b + k] = os_[k].offset
            names[b + k] = r[k][0]
    if len(ents1) != len(ents):
        rec.outcome("different routines (C01)")
        return
    ex = c09.explore(nodes, ents1, spec, ents, rec)
    if ex is None:
        rec.outcome("behaves differently (C01/C05)")
        return
    vis, edges = ex
    rec.trace()

    def bad(kind, msg):
        rec.violation(kind, key, msg + "\n" + files[main], case)

    root = os.path.dirname(main)

    def absfile(rel):
        return main if rel is None else os.path.normpath(os.path.join(root, rel))

    # every emitted op has one entry
    entry = {}
    for n, o in off.items():
        d, m = sm.get_op_line_and_col__direct(o), sm.get_op_line_and_col__macros(o)
        if d is None and m is None:
            return bad("missing", f"no entry for {names[n]} (offset {o})")
        if d is not None and m is not None:
            return bad("twice", f"{names[n]} (offset {o}) has an entry in both maps")
        e = m or d
        if sm.get_op_line_and_col(o) is not e:
            return bad("accessors", f"get_op_line_and_col({o}) is another entry")
        entry[n] = (m.macro_name if m else None, absfile(m.relpath_included_file) if m else main, (e.line, e.column), m)
        if m is not None and m.relpath_included_file is not None and absfile(m.relpath_included_file) == main:
            return bad("file", f"the entry of {names[n]} (offset {o}) names the compiled file instead of null")

    def ctx(stack):
        return (stack[-1][2], deffile[stack[-1][2]]) if stack else (None, main)

    stack = {}
    for a, b in vis:
        if a not in off:
            continue
        if b not in at:
            # falling off the end of the routine: an added Return, or one that takes the place of a jump to the end
            continue
        role, obj, st = at[b]
        st = tuple(st)
        name, file = ctx(st)
        if entry[a][:2] != (name, file):
            return bad("owner", f"{names[a]} (offset {off[a]}) written in {name or 'a routine'} of {os.path.basename(file)} is mapped to {entry[a][0] or 'a routine'} of {os.path.basename(entry[a][1])}")
        ps = places(role, obj, fs[file].pos)
        if entry[a][2] not in ps:
            return bad("position", f"{names[a]} (offset {off[a]}) is mapped to {entry[a][2]}, written at {sorted(ps)}")
        if a in stack and stack[a] != st:
            rec.outcome("op shared by expansions")
            return
        stack[a] = st
    # jumps: with structures around, a Jump may stand for several of them
    plain = not any(w in ("if", "switch", "loop", "mcase") for f in fs.values() for w, _ in f.pos)
    for ca, cb, a, b in edges:
        js = [x for x in ca if x in off]
        gs = [y for y in cb if y in at]
        if len(js) == 1 and len(cb) == len(gs) == 1:
            role, obj, st = at[gs[0]]
            name, file = ctx(tuple(st))
            p = fs[file].pos[("stmt", id(obj))]
            if entry[js[0]][:3] != (name, file, p) and names[js[0]] == "Jump":
                if plain:
                    return bad("jump", f"the Jump (offset {off[js[0]]}) for {obj[0]} at {p} is mapped to {entry[js[0]][:3]}")
    # everything else: somewhere in the body it names
    for n in off:
        if n in stack:
            continue
        name, file, p, m = entry[n]
        if file not in fs or (name is not None and deffile.get(name) != file) or name not in fs[file].bodies and name is not None:
            return bad("owner", f"{names[n]} (offset {off[n]}) is mapped to macro {name} of {file}")
        anyp, structs = fs[file].bodies.get(name, (set(), set()))
        if p not in (structs if names[n] == "Jump" else anyp) and not (names[n] == "Return" and name is None):
            return bad("position", f"{names[n]} (offset {off[n]}, {'jump' if names[n] == 'Jump' else 'unreachable'}) is mapped to {p} in {name or 'routines'}, where nothing begins")
    # expansions
    order = sorted(off, key=lambda n: off[n])
    where = {n: i for i, n in enumerate(order)}
    exp, info = {}, {}
    for n, st in stack.items():
        for depth, (inst, callstmt, name) in enumerate(st):
            exp.setdefault(inst, set()).add(n)
            info[inst] = (callstmt, name, st[:depth])
    outside = [n for n in order if entry[n][0] is None]
    for n in order:
        # ops no execution tells the expansion of
        if n not in stack and entry[n][0] is not None:
            m = entry[n][3]
            after = min((off[x] for x in outside if off[x] > off[n]), default=None)
            if m.return_addr is None or m.return_addr <= off[n] or (after is not None and m.return_addr > after):
                return bad("return-address", f"{names[n]} (offset {off[n]}) of macro {entry[n][0]} has return address {m.return_addr}; the first op outside of macros after it is {after}")
    for inst, E in exp.items():
        callstmt, name, outer = info[inst]
        hi = max(where[n] for n in E)
        after = None
        for n in order[hi + 1 :]:
            if n in stack or entry[n][0] is None:
                after = off[n]
                break
        oname, ofile = ctx(outer)
        cp = fs[ofile].pos[("stmt", id(callstmt))]
        first = min(E, key=where.get)
        mine = sorted((n for n in E if n in stack and stack[n][-1][0] == inst), key=where.get)
        for n in mine:
            m = entry[n][3]
            if m.return_addr is None or m.return_addr <= off[order[hi]] or (after is not None and m.return_addr > after):
                return bad("return-address", f"{names[n]} (offset {off[n]}) of the call of {name} at {cp} has return address {m.return_addr}; the expansion ends with {off[order[hi]]}, followed by {after}")
            if n != first and m.called_in is not None:
                return bad("called-in", f"{names[n]} (offset {off[n]}), not the first op of the call of {name} at {cp}, says it was called in {m.called_in}")

        def calledok(ci):
            return (absfile(ci[0]),) + tuple(ci[1:]) == (ofile,) + cp and not (ci[0] is not None and ofile == main)

        if mine and mine[0] == first:
            ci = entry[first][3].called_in
            if ci is None:
                i = where[first] - 1
                while ci is None and i >= 0 and order[i] not in stack and entry[order[i]][0] is not None:
                    ci = entry[order[i]][3].called_in
                    i -= 1
            if ci is None or not calledok(ci):
                return bad("called-in", f"{names[first]} (offset {off[first]}), the first op of the call of {name} at {cp} in {os.path.basename(ofile)}, says it was called in {ci}")
    # included files
    from explorerscript.included_usage_map import IncludedUsageMap

    got = {os.path.normpath(x) for x in IncludedUsageMap(sm, main).included_files}
    want = {e[1] for e in entry.values() if e[1] != main}
    if got != want:
        return bad("included", f"included files {sorted(got)}, files that contributed {sorted(want)}")
    # position marks
    def pm(x):
        return ("p", x.name, x.x_offset, x.y_offset, x.x_relative, x.y_relative)

    direct = [pm(x) for x in sm.get_position_marks__direct()]
    inmacros = [(absfile(x[0]), x[1], pm(x[2])) for x in sm.get_position_marks__macros()]
    recorded = sorted(direct + [x[2] for x in inmacros])
    emitted = sorted(ssb.norm(p) for r in c.routine_ops for op in r for p in op.params if type(p).__name__ == "SsbOpParamPositionMarker")
    if set(recorded) != set(emitted):
        return bad("marks", f"recorded {sorted(set(recorded))}, in the parameters {sorted(set(emitted))}")
    args = [m for f in fs.values() for call in literals((f.prog["macros"], f.prog["routines"]), "macro") for m in literals(call, "p")]
    if not args and recorded != emitted:
        return bad("marks", f"recorded {recorded}, in the parameters {emitted}")
    written = set(literals([r[4] for r in fs[main].prog["routines"]], "p"))
    for m in direct:
        if m not in written:
            return bad("marks", f"{m} is recorded as written in the routines, where there is {sorted(written)}")
    for file, name, m in inmacros:
        if deffile.get(name) != file or m not in literals(ms[name][2], "p"):
            return bad("marks", f"{m} is recorded as written in macro {name} of {file}")


def literals(x, tag):
    """all nodes (tag, ..) in a tree"""
    out = []
    if isinstance(x, (tuple, list)):
        if isinstance(x, tuple) and x and x[0] == tag:
            out.append(x)
        for y in x:
            out.extend(literals(y, tag))
    return out


# ---- spaces -----------------------------------------------------------------------------------------------------------
MAIN = "/nonexistent/main.exps"
LAYOUTS = {
    "plain": dict(),
    "line": dict(ind="", nl=" "),
    "comments": dict(ind=" ", nl="\n\n  /* a\nb */ // c\n\t"),
    "glued": dict(ind="", nl=""),
}


def one(p, rec, layouts=("plain",), case=None):
    for l in layouts:
        text = src.render(p, **LAYOUTS[l])
        check({MAIN: text}, MAIN, rec, text, case)


def run_routines(case, rec):
    one(case, rec)


def run_layouts(case, rec):
    one(case, rec, ("plain", "line", "comments", "glued"))


def run_macros(case, rec):
    one({"macros": case[0], "routines": case[1]}, rec, ("plain",))


def run_macros_l(case, rec):
    one({"macros": case[0], "routines": case[1]}, rec, ("plain", "glued", "comments"))


def on_disk(files, main, rec, key, lookup=None):
    """files: relative path -> text with @ROOT@"""
    base = os.path.realpath(tempfile.mkdtemp(dir=c05.scratch()))
    try:
        fs = {}
        for p, t in files.items():
            full = os.path.join(base, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            fs[full] = t.replace("@ROOT@", base)
            with open(full, "w") as f:
                f.write(fs[full])
        check(fs, os.path.join(base, main), rec, key, lookup=[os.path.join(base, d) for d in lookup or ()])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_split(case, rec):
    """the macros of a macro program in a file in another directory / spread over two files"""
    ms, rs = case
    callees = [m for m in ms if m[0] == "m"]
    rest = [m for m in ms if m[0] != "m"]
    R = src.render
    key = R({"macros": ms, "routines": rs})
    on_disk({"p/main.exps": R({"imports": ["../l/lib.exps"], "macros": (), "routines": rs}), "l/lib.exps": R({"macros": ms, "routines": ()}, ind="\t")}, "p/main.exps", rec, "all macros imported\n" + key)
    if rest:
        on_disk({"p/main.exps": R({"imports": ["./sub/lib.exps"], "macros": rest, "routines": rs}), "p/sub/lib.exps": R({"macros": callees, "routines": ()}, ind="\t")}, "p/main.exps", rec, "callee imported\n" + key)
        on_disk(
            {
                "p/main.exps": R({"imports": ["./sub/lib.exps"], "macros": (), "routines": rs}),
                "p/sub/lib.exps": "// a\n" + R({"imports": ["../../l.exps"], "macros": rest, "routines": ()}, ind="\t"),
                "l.exps": R({"macros": callees, "routines": ()}, ind=" "),
            },
            "p/main.exps", rec, "callee imported by the imported file\n" + key,
        )


def run_forms(case, rec):
    one(case, rec, ("plain", "comments"))


def run_chain_files(case, rec):
    files, main, ms, rs = macros.chain_files_case(case)
    lay = list(LAYOUTS.values())
    texts = {p: src.render({"imports": i, "macros": m, "routines": rs if p == main else ()}, **lay[j % 4]) for j, (p, (i, m)) in enumerate(files.items())}
    on_disk(texts, main, rec, repr(case))


SEPS = (None, " ", "\n\t", "  // x\n /* y\n */")


def run_ssbs(rset, rec):
    """SsbScript: every op is its own statement."""
    try:
        text, _ = c07.decompile_ssbs(rset)
    except Exception as e:
        rec.outcome(f"not decompiled (C07): {type(e).__name__}")
        return
    toks = [t.text for t in reader.tokens(text) if t.text]
    for sep in SEPS:
        for marker in (False, True):
            t = text if sep is None else sep.join(toks)
            t = "//?: is-ssb-script: true\n" + t if marker else t
            try:
                c = ssb.compile_text(t) if marker else c07.compile_ssbs(t)
            except Exception as e:
                rec.outcome(f"rejected (C07): {type(e).__name__}")
                continue
            got = [(op.op_code.name, op.offset) for r in c.routine_ops for op in r]
            want = c09.ssbs_places(t)
            if [n for n, _ in got] != [n for n, _, _ in want]:
                rec.outcome("other ops (C07)")
                continue
            rec.states(len(got))
            rec.transitions(len(got))
            rec.trace()
            at = {}
            for (n, o), (_, l, col) in zip(got, want):
                e = c.source_map.get_op_line_and_col(o)
                if e is None or (e.line, e.column) != (l, col) or c.source_map.get_op_line_and_col__macros(o) is not None:
                    rec.violation("ssbscript", t, f"{n} (offset {o}) is mapped to {e and (e.line, e.column)}, written at {(l, col)}\n{t}")
                    break
            marks = sorted(ssb.norm(p) for r in c.routine_ops for op in r for p in op.params if type(p).__name__ == "SsbOpParamPositionMarker")
            have = sorted(("p", x.name, x.x_offset, x.y_offset, x.x_relative, x.y_relative) for x in c.source_map.get_position_marks__direct())
            if marks != have:
                rec.violation("marks", t, f"recorded {have}, in the parameters {marks}\n{t}")


def o(i, *args):
    return ("op", f"o{i}", tuple(args), None)


BODIES = {
    "ops": lambda n, inner: (o(n + "1"),) + inner + (o(n + "2"),),
    "first": lambda n, inner: inner + (o(n + "1"), o(n + "2")),
    "last": lambda n, inner: (o(n + "1"), o(n + "2")) + inner,
    "jump-first": lambda n, inner: (("jump", "a"), ("label", "a")) + inner + (o(n + "1"),),
    "return": lambda n, inner: (("if", ((0, (forms.q(1),), (("ret",),)),), None),) + inner + (o(n + "2"), ("ret",)),
    "if": lambda n, inner: (("if", ((0, (forms.q(1),), inner or (o(n),)), (1, (forms.q(2), forms.q(3)), (o(n + "x"),) + inner)), inner or None),),
    "loop": lambda n, inner: (("while", 0, forms.q(1), inner + (("if", ((0, (forms.q(2),), (("break_loop",),)),), None),)), o(n + "2")),
    "mark": lambda n, inner: (o(n, ("p", "m" + n, 2, 0, 1, 2)),) + inner + (o(n, I(1), ("p", "n" + n, 0, 0, 3, 4)),),
    "switch": lambda n, inner: (("switch", ("var", C("$S")), ((("v", I(1)), inner + (("break",),)), (None, (o(n),)))),),
}


def file_cases(small):
    """x in main, y and y2 in A, z in B; imports main->A(->B), main->B; call structure and body shapes varied."""
    from itertools import product

    shapes = list(BODIES)
    edges = (("x", "y"), ("x", "z"), ("y", "z"), ("y", "y2"), ("y2", "z"))
    for imps in (("A", "AB"), ("AB",), ("BA",), ("B", "A", "AB"), ("A", "B", "AB")):
        # which import statements: main's in order ('A', 'B') and whether A imports B ('AB')
        pass
    for main_imports, a_imports in ((("A",), True), (("A", "B"), True), (("B", "A"), True), (("A", "B"), False)):
        for mask in range(1, 1 << len(edges)):
            es = tuple(e for b, e in enumerate(edges) if mask >> b & 1)
            if not a_imports and any(e in (("y", "z"), ("y2", "z")) for e in es):
                continue
            for k in range(len(shapes)):
                if small:
                    combos = [(shapes[k],) * 4, (shapes[k], shapes[(k + 3) % len(shapes)], shapes[(k + 5) % len(shapes)], shapes[(k + 1) % len(shapes)])]
                else:
                    combos = [(shapes[k], s2, s3, shapes[(k + 1) % len(shapes)]) for s2, s3 in product(shapes, repeat=2)]
                for sh in combos:
                    yield main_imports, a_imports, es, sh


DIRPAIRS = (("p", "p"), ("p/s", "o"), ("o", "p/s"), ("lk", "p/s/t"), ("o", "lk"))


def run_file_case(case, rec):
    main_imports, a_imports, es, sh = case
    shape = dict(zip(("x", "y", "y2", "z"), sh))

    def body(n):
        return (n, (), BODIES[shape[n]](n, tuple(("macro", t, ()) for s, t in es if s == n)))

    i = hash_of(case)
    da, db = DIRPAIRS[i % len(DIRPAIRS)]
    lay = list(LAYOUTS.values())
    pa, pb = f"{da}/fa.exps", f"{db}/fb.exps"

    def imp(frm, to):
        if to.startswith("lk/"):
            return to[3:]
        return macros.rel(frm, to)

    texts = {
        "p/main.exps": src.render({"imports": [imp("p", {"A": pa, "B": pb}[m]) for m in main_imports], "macros": (body("x"),), "routines": (
            ("generic", 0, None, None, tuple(("macro", n, ()) for n in ("x", "y", "z", "y2")) + (o(1),)),
            ("generic", 1, None, None, (("if", ((0, (forms.q(7),), (("macro", "y", ()),)),), None), ("macro", "x", ()))),
        )}, **lay[i % 4]),
        pa: src.render({"imports": [imp(da, pb)] if a_imports else [], "macros": (body("y"), body("y2"))[:: 1 if i % 2 else -1], "routines": ()}, **lay[(i + 1) % 4]),
        pb: src.render({"macros": (body("z"),), "routines": ()}, **lay[(i + 2) % 4]),
    }
    on_disk(texts, "p/main.exps", rec, repr(case), ["lk"])


def hash_of(case):
    import zlib

    return zlib.crc32(repr(case).encode())


def graphs(hi):
    for n in range(1, hi + 1):
        yield from macros.graph_programs(n)


def marks_cases():
    """position marks as arguments of ops, headers and macro calls, used 0, 1 or 2 times"""
    P = lambda i: ("p", f"k{i}", 0, 2, i, 1)
    for uses in ((), (o("u", C("$a")),), (o("u", C("$a"), C("$a")),), (o("u", C("$b")), o("v", C("$a"))), (("macro", "n", (C("$a"),)),), (("macro", "n", (P(5),)),)):
        n = ("n", ("$c",), (o("n", C("$c"), P(6)),))
        m = ("m", ("$a", "$b"), uses + (o("e"),))
        for calls in ((("macro", "m", (P(1), P(2))),), (("macro", "m", (P(1), I(2))), ("macro", "m", (P(1), P(3)))), (o(1, P(4)),), (("with", "actor", C("A"), o(1, P(4))), ("macro", "m", (P(4), P(4)))), (("switch", ("hop", "ProcessSpecial", (P(1), I(1))), ((("v", I(1)), (o(2, P(2)),)),)),)):
            yield (m, n), (("generic", 0, None, None, calls + (o(9),)),)


def spaces(tier):
    q = tier == "quick"
    S = runner.Space

    def bodies(feats, labels, lo, hi, depth=3):
        def g():
            for n in range(lo, hi + 1):
                for b in gen.bodies(feats, n, labels, depth):
                    yield (("generic", 0, None, None, gen.number(b)),)

        return g

    return [
        S("ssbscript-ops", lambda: c07.op_sets("obrj" if q else "orbjcSx", 1, 3, 2), run_ssbs, "SsbScript: all op sequences up to length 3 in up to 2 routines, 4 layouts, with and without marker"),
        S("ssbscript-params", lambda: islice(c07.param_sets(True), 0, None, 7 if q else 1), run_ssbs, "SsbScript: parameter values of every type (quick: every 7th case of the enumeration), 4 layouts, with and without marker"),
        S("marks", marks_cases, run_macros, "position marks in ops, headers and macro calls whose parameters are used 0..2 times"),
        S("layouts", bodies("orhlcjinxsdfwF", ("a",), 1, 3), run_layouts, "all bodies of cost <= 3 in four layouts (lines, one line, comments, nothing between statements)"),
        S("files", lambda: file_cases(q), run_file_case, "macros over three files: import structures x call sets x body shapes, directories and layouts", chunk=8),
        S("graphs", lambda: graphs(4 if q else 5), run_macros, "all labelled acyclic call graphs of up to 4 (thorough 5) macros"),
        S("many", lambda: macros.wide_programs(8 if q else 16), run_macros, "chains of 1..8 (thorough 16) macros, parameters, calls, routines"),
        S("file chains", lambda: macros.chain_files(5 if q else 8), run_chain_files, "chains of up to 5 (thorough 8) imported files over directories", chunk=4),
        S("routine webs", lambda: deep.routine_webs(6 if q else 12), run_routines, "2..6 (thorough 12) routines that jump to, branch to and call each other"),
        S("forms", lambda: c02.form_cases(q), run_forms, "every condition, statement, header and case form in every place, two layouts"),
        S("deep", lambda: ((("generic", 0, None, None, b),) for b in deep.programs(2 if q else 3, 8 if q else 16)), run_routines, "chains of 2 (thorough 3) nested blocks of 15 kinds, repeated constructs"),
        S("nested bodies", lambda: macros.deep_bodies(2), run_macros, "chains of 2 nested blocks of 15 kinds as macro bodies, 2 call contexts each"),
        S("bodies", lambda: macros.body_programs("orhlcjinxsdfwM", ("a",), 3), run_macros, "all macro bodies of cost <= 3 x 14 call contexts"),
        S("split", lambda: macros.body_programs("orljinxsw", ("a",), 2 if q else 3), run_split, "all macro bodies of cost <= 2 (thorough 3) x call contexts, spread over files", chunk=8),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
