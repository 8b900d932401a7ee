"""C18: the position-mark listing delimits every Position literal exactly.

Every source of the spaces is really listed (PositionMarkVisitor over ExplorerScriptReader) and compared with the literals an
independent reader of the grammar finds; the parameters are compared with those really compiled, and delimited spans are
replaced by printed edited marks and the result recompiled.
"""
from __future__ import annotations

import sys
from itertools import product

from mc import forms, reader, runner, src, ssb
from mc.checks import c10, c16

PROPERTY = "C18"
ASSUMPTIONS = [
    "lines end at line feeds, columns count characters",
    "names are edited to ones a single line string denotes; offsets 0 and 2 (4 is printed as 2)",
    "a literal in a macro is one literal, an edit of it changes the parameter in every expansion",
]


def listing(text):
    from explorerscript.explorerscript_reader import ExplorerScriptReader
    from explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor import PositionMarkVisitor

    return PositionMarkVisitor().visit(ExplorerScriptReader(text).read())


def flat(m):
    return (("p", m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative), m.line_number, m.column_number, m.end_line_number, m.end_column_number)


def offset_of(text, line, col):
    i = 0
    for _ in range(line):
        i = text.index("\n", i) + 1
    return i + col


_answers = {}


def answer(text):
    if text not in _answers:
        if len(_answers) > 64:
            _answers.clear()
        _answers[text] = c16.answer(text)
    return _answers[text]


def rename(x, old, new):
    """answer x with every position mark parameter and recorded mark of value `old` replaced"""
    if isinstance(x, tuple):
        if x[1:] == old:
            return x[:1] + new
        if x == old[1:]:
            return new[1:]
        return tuple(rename(y, old, new) for y in x)
    return x


def sort_marks(a):
    return a[:4] + (tuple(sorted(a[4])), tuple(sorted(a[5]))) if a[0] == "ok" else a


def ops_marks(a):
    return [p[1:] for r in a[3] for o in r for p in o[2] if p[1] == "p"]


EDITS = (
    ("new", 0, 0, 0, 0), ("new", 2, 0, 1, -1), ("new", 0, 2, -17, 300), ("new", 2, 2, -2, 7), ("it's", 0, 0, 10, 20), ('say "x"', 2, 0, 0, 5), ("'\"", 0, 2, 1, 1),
    ("", 0, 0, 1, 2), ("\n", 0, 0, 1, 2), ("a > b, Position<'z', 1, 2>", 0, 0, 3, 4), ("//", 2, 2, 8, 9), ("/* ", 0, 0, 1, 2), (" é\U0001f600 ", 0, 0, -1, -1),
)


def check(text, rec, edits=(), compiles=True):
    from explorerscript.ssb_converting.ssb_data_types import SsbOpParamPositionMarker

    try:
        rd = reader.read(text)[1]
    except reader.ReadError:
        rec.outcome("not a program")
        return
    want = [m[:5] for m in rd.posmarks]
    rec.states(1 + len(want))
    rec.trace()
    try:
        got = [flat(m) for m in listing(text)]
    except Exception as e:
        rec.violation("raises", text, f"{type(e).__name__}: {e}")
        return
    if got != want:
        rec.violation("listing", text, f"listed {got}\nliterals {want}")
        return
    if not compiles:
        return
    ref = answer(text)
    if ref[0] != "ok":
        rec.outcome("not compiled")
        return
    vals = [m[0] for m in want]
    imported = "import" in text
    for p in ops_marks(ref):
        if p not in vals and not imported:
            rec.violation("parameter", text, f"compiled {p}, listed {vals}")
            return
    for k, m in enumerate(got):
        a = offset_of(text, m[1], m[2])
        b = offset_of(text, m[3], m[4]) + 1
        for e in edits:
            if e[0] == "new":
                e = (f"new{k}",) + e[1:]
            new = ("p",) + e
            t = text[:a] + str(SsbOpParamPositionMarker(*e)) + text[b:]
            rec.states(1)
            rec.transitions(1)
            rec.trace()
            res = c16.answer(t)
            if vals.count(m[0]) == 1:
                exp = rename(ref, m[0], new)
            else:
                # the same literal several times: as if the literals had names of their own
                marked = text[:a] + f"Position<'~{k}~', 1, 2>" + text[b:]
                exp = rename(c16.answer(marked), ("p", f"~{k}~", 0, 0, 1, 2), new)
            if sort_marks(res) != sort_marks(exp):
                rec.violation("edit", t, f"literal {k} of {text!r} replaced\n{c16.diff(sort_marks(exp), sort_marks(res))}")
                return


# ---- programs: LIT stands for a literal -------------------------------------------------------------------------------
LIT = "\x00"

STMTS = (
    f"x({LIT});",
    f"x(1, {LIT}, 'a', {LIT});",
    f"x({LIT},);",
    f"x({LIT}, {LIT}, {LIT});",
    f"x<actor 3>({LIT}, 1);",
    f"with (object OBJ) {{ x({LIT}); }}",
    f"~m({LIT});",
    f"~m2({LIT}, {LIT});",
    f"~m2(1, {LIT},);",
    f"~unused({LIT});",
    f"switch (ProcessSpecial({LIT}, 1)) {{ case 1: x({LIT}); break; default: y({LIT}); }}",
    f"switch (message_Menu({LIT})) {{ case menu('a'): x({LIT}); case menu2({{e='x'}}.): }}".replace("case menu2({e='x'}.): ", ""),
    f"if (Branch({LIT})) {{ x({LIT}); }} elseif not (BranchBit({LIT}, 2) || $V == 3) {{ y({LIT}); }} else {{ z({LIT}); }}",
    f"while (BranchDebug({LIT})) {{ x({LIT}); }}",
    f"for (x({LIT}); Branch({LIT}); y({LIT});) {{ z({LIT}); }}",
    f"forever {{ x({LIT}); break_loop; }}",
    f"message_SwitchTalk ($V) {{ case 1: 'a' default: 'b' }} x({LIT});",
    f"@a; x({LIT}); jump @a;",
    f"return; x({LIT});",
    f"x({{e='Position<', f=\"x>\"}}, 'Position<', {LIT}, '>');",
)
CONTEXTS = (
    "{}",
    "if ($Q == 1) {{ {} }} else {{ k(); }}",
    "if ($Q == 1) {{ k(); }} else {{ {} }}",
    "switch ($Q) {{ case 1: {} break; default: k(); }}",
    "forever {{ {} }}",
    "while ($Q == 2) {{ k(); {} }}",
    f"x({LIT}); {{}} y({LIT});",
)
MACROS = "macro m($a) { u($a); } macro m2($a, $b) { u($b, $a); ~m($a); } macro unused($a) { w(); }"
FILES = (
    "def 0 { {0} } " + MACROS,
    MACROS + " macro here() { {0} } def 0 { ~here(); }",
    MACROS + " macro here($p) { {0} } def 0 { ~here(1); k(); ~here(2); } def 1 { ~here(3); }",
    MACROS + f" coro C {{ {{0}} }} coro D {{ x({LIT}); }} macro never() {{ y({LIT}); }}",
    "import 'lib.exps'; " + MACROS + f" def 0 for actor 3 {{ ~lib_m({LIT}); }} def 1 {{ {{0}} }}",
)
# spellings of a literal: name token, gaps and numbers
SPELLINGS = (
    "Position<'{n}', 1, 2>",
    'Position<"{n}",0,0>',
    "Position < '{n}' , 1.5 , -2.5 >",
    "Position\n<\n  '{n}'\n,\n1\n,\n2.50\n>",
    "Position<'{n}', // c >\n 0x10, /* > */ -0b11>",
    "Position/*\n\n*/<'{n}',1.0,.5/*>*/>",
    "Position\\\n<'{n}\\n\\'\\\"',\t0o17, 00>",
    "Position<\t'{n} > , \"', -.5, 007.500>",
    "Position<'Position<{n}, 1, 2>', -1, 255>",
    "Position<'\u00e9\U0001f600{n}', 9, 8>",
    "Position<'{n}',\r\n1,\r\n2\r\n>",
    "Position<'{n}//', 1, 2>/* Position<'no', 1, 2> */",
)


def fill(template, spell):
    """Literals numbered from the left, spelled by spell(i)."""
    parts = template.split(LIT)
    out = [parts[0]]
    for i, p in enumerate(parts[1:]):
        out += [spell(i).replace("{n}", f"m{i}"), p]
    return "".join(out)


def templates(files=FILES, ctxs=CONTEXTS, stmts=STMTS):
    for f, c, s in product(files, ctxs, stmts):
        yield put(f, c.format(s))


def put(f, body):
    return f.replace("{0}", body)


def run_template(case, rec):
    t, edits = case
    n = len(SPELLINGS)
    check(fill(t, lambda i: SPELLINGS[0]), rec, EDITS[:edits])
    for k in range(1, n):
        check(fill(t, lambda i: SPELLINGS[k]), rec, EDITS[(k % len(EDITS)):][:1] if edits else ())
    check(fill(t, lambda i: SPELLINGS[(i * 5 + 1) % n]), rec)
    check(fill(t, lambda i: SPELLINGS[3] if i == 0 else SPELLINGS[0]), rec)
    # the same literal everywhere
    same = t.replace(LIT, "Position<'same', 1, 2>")
    check(same, rec, EDITS[1:2] if edits else ())


def run_edits(t, rec):
    for s in SPELLINGS:
        check(fill(t, lambda i: s), rec, EDITS)


def pair_templates():
    for a, b in product(STMTS, repeat=2):
        if "@a" in a and "@a" in b:
            b = b.replace("@a", "@b")
        for sep in (" ", "\n    "):
            yield put(FILES[0], a + sep + b)


def nested_templates():
    for f in (FILES[0], FILES[1]):
        for c1, c2 in product(CONTEXTS[1:], repeat=2):
            for s in STMTS:
                yield put(f, c1.format(c2.format(s)))


# ---- layout: every separator at every token boundary --------------------------------------------------------------------
LAYOUT = (
    f"def 0 {{ x ( {LIT} ) ; ~m ( 1 , {LIT} ) ; }} macro m ( $a , $b ) {{ y ( $b , {LIT} ) ; }}",
    f"def 0 {{ switch ( f ( {LIT} ) ) {{ case 1 : x ( {LIT} ) ; }} if ( Branch ( {LIT} ) ) {{ y ( ) ; }} }}",
)


def layout_cases():
    for t in LAYOUT:
        b = fill(t, lambda i: "Position < '{n}' , 1.5 , -2 >")
        for i in range(len(c16.tokens(b)[1]) + 1):
            yield b, i


def run_layout(case, rec):
    b, i = case
    toks = c16.tokens(b)[1]
    for s in c16.SEPS:
        for around in ("", " "):
            seps = [" "] * len(toks) + [""]
            seps[i] = around + s
            t = c16.join("", toks, seps)
            if not t.startswith("//?:"):
                check(t, rec, EDITS[2:3])


def run_uniform(t, rec):
    toks = c16.tokens(fill(t, lambda i: SPELLINGS[2]))[1]
    for s in c16.SEPS:
        u = c16.uniform("", toks, s)
        if u and not u.startswith("//?:"):
            check(u, rec, EDITS[3:4])
    check(c16.join("", toks, ["\n" + " " * (i % 7) for i in range(len(toks))] + ["\n"]), rec, EDITS[3:4])


# ---- literals: all names and numbers -------------------------------------------------------------------------------------
NAME_ALPHA = "a'\"\\n> <,"
PLACES = (f"def 0 {{ x({LIT}); }}", f"def 0 {{ ~m({LIT},); y({LIT}, {LIT}); }} macro m($a) {{ z($a); }}")


def name_cases(q):
    for k in range(4 if q else 6):
        for c in product(NAME_ALPHA, repeat=k):
            c = "".join(c)
            for qt in "'\"":
                yield f"Position<{qt}{c}{qt}, 1, 2>"


def number_cases(q):
    ns = ["0", "-0", "00", "1", "-1", "255", "-256", "0x1F", "-0XfF", "0o17", "0b101", "-0B1", "1.5", "-1.5", "0.5", ".5", "1.0", "-3.0", "2.50", "10.500", "007.5", ".0", "0.50", "99999", "32768", "-32769"]
    for a, b in product(ns, repeat=2):
        yield f"Position<'n', {a}, {b}>"


def run_literal(l, rec):
    for p in PLACES:
        check(p.replace(LIT, l), rec, EDITS[1:2])


# ---- sources that only parse ----------------------------------------------------------------------------------------------
ONLY_PARSED = (
    f"def 0 {{ ~nowhere({LIT}); }}",
    f"def 0 {{ x({LIT}); jump @nowhere; }}",
    f"macro m() {{ ~m(); x({LIT}); }} def 0 {{ ~m(); }}",
    f"import 'missing.exps'; def 0 {{ x({LIT}); }}",
    f"def 3 {{ x({LIT}); }} coro A {{ y({LIT}); }} def 3 {{ z({LIT}); }}",
    f"macro m($a) {{ }} macro n() {{ x({LIT}); }}",
    f"def 0 {{ break; x({LIT}); continue; break_loop; }}",
    f"def 0 {{ alias previous; }} def 1 {{ x({LIT}); }}",
    f"def 0 {{ switch (x({LIT})) {{ case 1: y({LIT}); default: 'a' default: z({LIT}); }} }}",
    f"def 0 {{ message_SwitchTalk ($V) {{ case 1: x({LIT}); default: y({LIT}); }} }}",
    f"def 0 {{ if (notabranch({LIT})) {{ }} while (x({LIT})) {{ }} forever {{ }} }}",
    f"def 0 {{ with (actor 1) {{ @l; }} with (actor 1) {{ x({LIT}); }} }}",
    f"def 0 {{ for (@a; x({LIT}); jump @b) {{ }} }}",
    f"def 0 {{ }} def 1 {{ if (debug) {{ }} else {{ x({LIT}); }} }}",
    f"macro m($a, $a) {{ x({LIT}, $a); }} macro m() {{ y({LIT}); }}",
    "",
    "def 0 { x(); }",
    "// Position<'a', 1, 2>\ndef 0 { x('Position<\"a\", 1, 2>'); }",
    f"def 0 {{ \n\n\t\tx({LIT}\n); y({LIT}); }}   // tail",
    f"def 0 {{ x({LIT}); }}\r\ndef 1 {{\r\n  y({LIT});\r\n}}",
)


def run_parsed(t, rec):
    for s in SPELLINGS:
        check(fill(t, lambda i: s), rec, compiles=False)


# ---- all programs of the other checks' forms ------------------------------------------------------------------------------
def corpus(q):
    from mc import macros

    for b in c16.bases():
        if not b.startswith(c16.SSBS):
            yield b
    for s in forms.simple_statements():
        if "'p'" in repr(s):
            for _, body in forms.stmt_contexts(s):
                yield src.render((("generic", 0, None, None, tuple(body)),))


def run_corpus(t, rec):
    check(t, rec, EDITS[3:4])


def spaces(tier):
    q = tier == "quick"
    S = runner.Space
    seen = set()

    def once(ts):
        s = set()
        for t in ts:
            if t not in s:
                s.add(t)
                yield t

    n = len(STMTS) * len(CONTEXTS) * len(FILES)
    return [
        S("templates", lambda: ((t, 2 if q else 13) for t in once(templates())), run_template, f"{len(STMTS)} statements with literals x {len(CONTEXTS)} contexts x {len(FILES)} files x {len(SPELLINGS)} spellings, mixed spellings, equal literals; edits", chunk=2, timeout=300),
        S("pairs", lambda: ((t, 0 if q else 2) for t in once(pair_templates())), run_template, "all ordered pairs of statements on one line and on two", chunk=2, timeout=300),
        S("nested", lambda: ((t, 0) for i, t in enumerate(once(nested_templates())) if not q or i % 4 == 0), run_template, "all statements in all pairs of nested contexts" + (" (every 4th)" if q else ""), chunk=2, timeout=300),
        S("edits", lambda: (put(FILES[0], s) for s in STMTS), run_edits, f"every literal of every statement x {len(SPELLINGS)} spellings x {len(EDITS)} edits", chunk=1, timeout=300),
        S("layout", layout_cases, run_layout, f"{len(LAYOUT)} programs x every token boundary x {len(c16.SEPS)} separators", chunk=1, timeout=300),
        S("uniform", lambda: (put(FILES[1], s) for s in STMTS), run_uniform, f"{len(c16.SEPS)} separators at all boundaries", chunk=1, timeout=300),
        S("names", lambda: name_cases(q), run_literal, f"all names of up to {3 if q else 5} of {len(NAME_ALPHA)} characters, both quotes", chunk=32, timeout=120),
        S("numbers", lambda: number_cases(q), run_literal, "all pairs of number spellings", chunk=16, timeout=120),
        S("only-parsed", lambda: ONLY_PARSED, run_parsed, "sources that parse but are not accepted by the compiler", chunk=1, timeout=120),
        S("corpus", lambda: corpus(q), run_corpus, "the programs covering the grammar; every statement form with a literal in every context", chunk=8, timeout=120),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
