"""C10: compilation fails only in documented ways and rejects meaningless programs.

Texts (all token sequences / single token edits / short strings / degenerate programs), statically meaningless programs
(every stray statement in every place), macro call graphs and import graphs are enumerated and really compiled. An
exception must be ParseError, SsbCompilerError or ValueError; what is meaningless must be rejected.
"""
from __future__ import annotations

import os
import resource
import shutil
import sys
import tempfile
import zlib
from itertools import permutations, product

from mc import gen, macros, runner, src, ssb
from mc.src import C, I

PROPERTY = "C10"
ASSUMPTIONS = [
    "break in a loop inside of a case, continue in the last part of a for header and labels defined twice are not judged",
    "a label of a macro is not visible outside of the macro and vice versa",
]
TMP = None
# An input must not be able to use up the memory of the machine.
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def documented():
    from explorerscript.error import ParseError, SsbCompilerError

    return (ParseError, SsbCompilerError, ValueError)


def attempt(text, rec, key=None, must_reject=None, name="/nonexistent/main.exps", lookup=(), case=None, limit=None):
    """must_reject: reason why the program is meaningless."""
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    key = key or text
    c = ExplorerScriptSsbCompiler(ssb.PPL, list(lookup))
    rec.trace()
    rec.states(1)
    rec.transitions(1)
    old = sys.getrecursionlimit()
    try:
        if limit:
            sys.setrecursionlimit(limit)
        try:
            c.compile(text, name)
        finally:
            sys.setrecursionlimit(old)
    except documented() as e:
        rec.outcome(type(e).__name__)
        if c.routine_ops is not None or c.routine_infos is not None or c.source_map is not None:
            rec.violation("output", key, f"there is output although {type(e).__name__} was raised", case)
        elif zlib.crc32(text.encode("utf-8", "surrogatepass")) % 6 == 0:
            reattempt(text, rec, key, must_reject, name, lookup, case, limit)
        return False
    except runner.CaseTimeout:
        raise
    except BaseException as e:
        rec.violation("undocumented", key, f"{type(e).__name__}: {e}", case)
        return False
    rec.outcome("accepted")
    if must_reject:
        rec.violation("accepted", key, must_reject, case)
    elif c.routine_ops is None or c.routine_infos is None or c.source_map is None:
        rec.violation("no-output", key, "compile returned without result", case)
    else:
        # what python -m explorerscript.cli.compile does with an accepted program
        from explorerscript.cli.compile import build_routines_json

        try:
            build_routines_json(c.routine_infos, c.named_coroutines, c.routine_ops)
        except documented():
            pass
        except Exception as e:
            rec.violation("cli", key, f"{type(e).__name__}: {e}", case)
    return True


# what the compiler compiled before: it knows all the names that are not known later on
PRIOR = (
    "macro unknown($a, $b) { x($a); } macro undefined($a) { x(); } macro known1() { x(); } macro known3() { x(); } macro n() { x(); } "
    "macro m() { @inmacro; x(); } macro m0() { x(); } macro m1() { x(); } macro m2() { x(); } "
    "def 0 { @nope; @z; @z2; ~m(); forever { switch ($V) { case 1: break; } } }"
)


def reattempt(text, rec, key, must_reject, name, lookup, case, limit):
    """The same with a compiler object that has compiled something else before: nothing of that may be its output now."""
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    c = ExplorerScriptSsbCompiler(ssb.PPL, list(lookup))
    c.compile(PRIOR if must_reject else "", name)
    rec.transitions(1)
    old = sys.getrecursionlimit()
    try:
        if limit:
            sys.setrecursionlimit(limit)
        try:
            c.compile(text, name)
        finally:
            sys.setrecursionlimit(old)
    except documented() as e:
        if c.routine_ops is not None or c.routine_infos is not None or c.source_map is not None:
            rec.violation("output", key, f"there is output of an earlier compilation although {type(e).__name__} was raised", case)
    except runner.CaseTimeout:
        raise
    except BaseException as e:
        rec.violation("undocumented", key, f"reused compiler: {type(e).__name__}: {e}", case)
    else:
        if must_reject:
            rec.violation("accepted", key, f"reused compiler: {must_reject}", case)


def run_texts(case, rec):
    for t in case:
        attempt(t, rec, case=(t,))


def bundles(it, n=100):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield tuple(buf)
            buf = []
    if buf:
        yield tuple(buf)


# ---- token level ---------------------------------------------------------------------------------------------------
TOKENS = (
    "def", "coro", "macro", "import", "for", "for_actor", "alias", "previous", "if", "elseif", "else", "not", "||", "switch", "case",
    "default", "message_SwitchTalk", "forever", "while", "with", "return", "end", "hold", "continue", "break",
    "break_loop", "jump", "call", "value", "debug", "edit", "variation", "random", "sector", "dungeon_mode", "menu",
    "menu2", "clear", "reset", "init", "scn", "dungeon_result", "adventure_log", "Position", "TRUE", "FALSE", "x", "actor", "$V", "~m", "0",
    "-1", "1.5", '"s"', "'''m'''", "{", "}", "(", ")", "[", "]", "<", ">", "==", "!=", "&", "=", "+=", "-=", ":", ";",
    ",", "@", "§", ".", "\\", "?", "é", "//c\n", "/*c*/", "/*", "'",
)
STMT_TOKENS = (
    "if", "not", "||", "switch", "case", "default", "forever", "with", "return", "break", "continue", "jump",
    "call", "x", "$V", "~m", "0", '"s"', "{", "}", "(", ")", "[", "]", "<", "==", "=", ":", ";", ",", "@",
)
HOLES = (
    "def 0 { %s }",
    "def 0 { x(); %s",
    "macro m($a) { %s } def 0 { ~m(1); }",
    "def 0 { switch ($V) { %s } }",
    "def 0 { if (%s) { x(); } }",
    "def 0 { switch (%s) { case 1: x(); } }",
    "def 0 { message_SwitchTalk ($V) { %s } }",
    "def 0 { x(%s); }",
    "def 0 { with (%s) { x(); } }",
    "def 0 { for (%s) { x(); } }",
    "def %s { x(); }",
    "//?: is-ssb-script: true\ndef 0 { %s }",
    "//?: is-ssb-script: true\n%s",
    "//?: is-ssb-script: true\ndef 0 { x(%s); }",
)


def token_texts(q):
    n = 2
    for k in range(n + 1):
        for t in product(TOKENS, repeat=k):
            yield " ".join(t)
    for h in HOLES:
        for k in range(0, 3 if q else 3):
            for t in product(TOKENS, repeat=k):
                yield h % " ".join(t)
    for h in HOLES[:1] + HOLES[11:12] if q else HOLES:
        for t in product(STMT_TOKENS if not q else STMT_TOKENS[::1], repeat=3):
            yield h % " ".join(t)


BASES = (
    'import "x" ;',
    "macro m ( $a , $b ) { x ( $a ) ; ~n ( 1 , ) ; } macro n ( $c ) { y ( ) ; } def 0 { ~m ( 1 , 2 ) ; }",
    "macro n ( $c ) { y ( $c , Position < 'p' , 1 , 2.5 > ) ; } macro m ( $a ) { ~n ( $a ) ; ~n ( Position < 'o' , 1 , 2 > ) ; } def 0 { ~m ( 1 ) ; ~n ( Position < 'q' , 3 , 4 > ) ; }",
    "coro A { x ( ) ; } coro B { alias previous ; }",
    "def 0 { x ( ) ; } def 1 for actor A { alias previous ; } def 2 for_object ( 3 ) { y ( ) ; }",
    "def 0 { @ a ; x ( 1 , -2 , 1.5 , C , $V , 's' , { e = 'x' , f = \"\"\"y\"\"\" , } , Position < 'n' , 1 , 2.5 > , ) ; jump @ a ; call @ a ; }",
    "def 0 { x < actor A > ( 1 ) ; with ( object 3 ) { x ( ) ; } with ( performer P ) { return ; } }",
    "def 0 { if ( $V == 1 || not $W [ 3 ] || debug ) { x ( ) ; } elseif not ( scn ( $S ) >= [ 1 , 2 ] ) { return ; } else { y ( ) ; } }",
    "def 0 { if ( BranchSum ( $V , 1 , 2 ) || not edit ) { x ( ) ; } }",
    "def 0 { switch ( $V ) { case 1 : case > value ( $W ) : x ( ) ; break ; default : y ( ) ; } }",
    "def 0 { switch ( scn ( $V ) [ 0 ] ) { case TRUE 2 : x ( ) ; } switch ( random ( 3 ) ) { case 0 : return ; } }",
    "def 0 { switch ( sector ( ) ) { case 1 : x ( ) ; } switch ( dungeon_mode ( 3 ) ) { case D : y ( ) ; } }",
    "def 0 { switch ( message_Menu ( 1 ) ) { case menu ( 's' ) : x ( ) ; break ; case menu2 ( 3 ) : y ( ) ; } }",
    "def 0 { message_SwitchTalk ( $V ) { case 1 : 'a' case 2 : { e = 'b' } default : 'c' } }",
    "def 0 { forever { if ( $V != 2 ) { break_loop ; } continue ; } while not ( $V < 3 ) { x ( ) ; } }",
    "def 0 { for ( $V = 0 ; $V & 3 ; $V += 1 ; ) { x ( ) ; continue ; } }",
    "def 0 { $V = 1 ; $V [ 3 ] = 1 ; $V -= value ( $W ) ; clear $V ; init $V ; reset dungeon_result ; reset scn ( $V ) ; adventure_log = 3 ; dungeon_mode ( 1 ) = D ; $V = scn [ 1 , 2 ] ; }",
    "def 0 { $PERFORMANCE_PROGRESS_LIST [ 3 ] = 1 ; if ( not $PERFORMANCE_PROGRESS_LIST [ 3 ] ) { end ; } hold ; }",
    "//?: is-ssb-script: true\n def 0 { @ a ; x ( 1 , 's' , Position < 'n' , 1 , 2 > , @ a ) ; Jump ( @ a ) ; } coro C { alias previous ; } def 2 for actor A { x ( { e = 'f' } ) ; }",
)


def edits(base):
    toks = base.split(" ")
    yield base
    n = len(toks)
    for i in range(n):
        yield " ".join(toks[:i] + toks[i + 1:])
        yield " ".join(toks[:i] + [toks[i]] + toks[i:])
        yield " ".join(toks[:i])
        if i + 1 < n:
            yield " ".join(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:])
            yield " ".join(toks[:i] + toks[i + 2:])
    for i in range(n):
        for t in TOKENS:
            yield " ".join(toks[:i] + [t] + toks[i + 1:])
            yield " ".join(toks[:i] + [t] + toks[i:])


def edit_texts(q):
    seen = set()
    for b in BASES:
        for t in edits(b):
            if t not in seen:
                seen.add(t)
                yield t


def edit2_texts():
    for b in BASES:
        toks = b.split(" ")
        n = len(toks)
        for i in range(n):
            for j in range(i + 1, n):
                yield " ".join(toks[:i] + toks[i + 1:j] + toks[j + 1:])
                yield " ".join(toks[:i] + toks[j:j + 1] + toks[i + 1:j] + toks[i:i + 1] + toks[j + 1:])


# ---- characters -----------------------------------------------------------------------------------------------------
CHARS = "ad0-.$~@§\"'\\{}()<>[];:,=+*/#&|^!?% \n\r\t\0\x0b\u2028é\U0001f600\ud800"
META = ("//?:", "//", "?:", ":", " ", "is-ssb-script", "true", "\n", "\r", "x", "def 0 { x(); }", "def 0 {", "1")


def char_texts(q):
    for k in range(3 if q else 4):
        for t in product(CHARS if k < 3 else CHARS[::2], repeat=k):
            s = "".join(t)
            yield s
            if k <= 2:
                yield "def 0 { x(" + s + "); }"
                yield "def 0 {" + s + "}"
                yield "def 0 { x('" + s + "'); }"
                yield "//?: is-ssb-script: true\n" + s
    for k in range(1, 4 if q else 5):
        for t in product(META, repeat=k):
            yield "".join(t)
            yield "//?:" + "".join(t)


# ---- degenerate programs -----------------------------------------------------------------------------------------------
def degenerate_texts():
    bodies = ("@a;", "@a; @b;", "@a; jump @a;", "jump @a; @a;", "call @a; @a;", "x(); @a;", "return; @a;", "alias previous;", "x();", "if ($V == 1) { jump @a; } @a;", "jump @c;", "forever { }", "while ($V == 1) { }", "switch ($V) { }", "if ($V == 1) { }", "message_SwitchTalk ($V) { }", "~m();", "$V = 1;", "with (actor A) { @a; }", "with (actor A) { jump @a; } @a;", "switch ($V) { case 1: @a; }", "switch ($V) { default: break; }", "return; return;", "")
    ids = ("0", "1", "2", "-1", "-2", "00", "0x1", "5")
    for pre in ("", "macro m() { @a; } ", "macro m() { } ", "macro m() { x(); } ", "macro m() { jump @a; @a; } ", "macro m() { alias previous; } ", "//?: is-ssb-script: true\n"):
        for b in bodies:
            for i in ids:
                yield pre + "def %s { %s }" % (i, b)
            yield pre + "coro C { %s }" % b
            for b2 in bodies[:12] + bodies[16:17]:
                for i, j in (("0", "1"), ("1", "0"), ("0", "0"), ("0", "2"), ("1", "1"), ("2", "1")):
                    yield pre + "def %s { %s } def %s { %s }" % (i, b, j, b2)
                yield pre + "def 0 { %s } coro C { %s }" % (b, b2)
                yield pre + "coro C { %s } def 0 for actor A { %s }" % (b, b2)
    for t in ("A", "1", "-1", "1.5", "$V", "0x1F"):
        for k in ("actor", "object", "performer", "other", "Actor"):
            for i in ids:
                yield f"def {i} for {k} {t} {{ x(); }}"
                yield f"//?: is-ssb-script: true\ndef {i} for {k} {t} {{ x(); }}"
        for k in ("for_actor", "for_object", "for_performer"):
            yield f"def 0 {k}({t}) {{ x(); }}"
            yield f"def 0 {k} {t} {{ x(); }}"
            yield f"//?: is-ssb-script: true\ndef 0 {k}({t}) {{ x(); }}"
    for i in ("100", "65536", "1000000000000", "0x7fffffffffffffff", "9" * 4400, "-9999999999"):
        for pre in ("", "//?: is-ssb-script: true\n"):
            yield pre + f"def {i} {{ x(); }}"
            yield pre + f"def 0 {{ x(); }} def {i} for actor A {{ x(); }}"
            yield pre + f"def 0 {{ x({i}); }}"
            yield pre + f"def 0 for actor {i} {{ x(); }}"
            yield pre + f"def 0 {{ x(Position<'a', {i}, {i}.5>, {i}.{i.replace('x', '').replace('-', '')}); }}"
            yield pre + f"def 0 {{ $V[{i}] = 1; if ($V[{i}]) {{ $V = scn[{i}, {i}]; }} }}"


def deep_texts(q):
    for n in (10, 50, 150, 400) if q else (10, 50, 150, 400, 1500):
        yield "def 0 {" + "if ($V == 1) {" * n + "x();" + "}" * n + "}"
        yield "def 0 {" + "forever {" * n + "x();" + "}" * n + "}"
        yield "def 0 {" + "switch ($V) { case 1:" * n + "x();" + "}" * n + "}"
        yield "def 0 { if (" + " || ".join(["$V == 1"] * n) + ") { x(); } }"
        yield "def 0 { if ($V == 1) { x(); }" + " elseif ($V == 2) { y(); }" * n + "}"
        yield "def 0 {" + "x();" * n + "}"
        yield "def 0 {" * n
        yield "(" * n
        yield "def 0 { x(" + "1," * n + "); }"
        yield "".join(f"macro m{i}() {{ ~m{i + 1}(); }}" for i in range(n)) + f"macro m{n}() {{ x(); }} def 0 {{ ~m0(); }}"
        yield "def 0 {" + "".join(f"jump @a{i}; @a{i};" for i in range(n)) + "x(); }"
        yield "def 0 {" + "with (actor A) {" * n + "}" * n + "}"


def run_deep(case, rec):
    attempt(case, rec, limit=1000, key=case if len(case) < 200 else case[:120] + f"...({len(case)})", case=case)


# ---- meaningless programs ---------------------------------------------------------------------------------------------
# blocks around a statement: (text with %s, gives a case, gives a loop)
BLOCKS = (
    ("if ($V == 1) { %s }", 0, 0),
    ("if ($V == 1) { x(); } else { %s }", 0, 0),
    ("if not ($V == 1) { x(); } elseif ($V == 2) { %s } else { y(); }", 0, 0),
    ("switch ($V) { case 1: %s case 2: y(); }", 1, 0),
    ("switch ($V) { case 1: case 2: z(); break; default: %s }", 1, 0),
    ("switch ($V) { default: z(); break; case 1: %s }", 1, 0),
    ("forever { %s }", 0, 1),
    ("while ($V == 1) { %s }", 0, 1),
    ("while not (debug) { %s }", 0, 1),
    ("for ($V = 0; $V < 3; $V += 1;) { %s }", 0, 1),
)
AROUND = ("%s", "x(); %s", "%s x();", "return; %s", "jump @q; %s @q; y();", "@q; %s jump @q;")
# where the blocks stand: (text with %s, is a macro body)
PLACES = (
    "def 0 { %s }",
    "def 0 { x(); } def 1 { %s }",
    "coro C { %s }",
    "def 0 { x(); } def 1 for actor A { %s } def 2 { y(); }",
    "macro m() { %s } def 0 { ~m(); }",
    "macro m() { %s } def 0 { x(); }",
    "macro m() { %s } macro n() { ~m(); } def 0 { ~n(); }",
    "macro m() { %s } def 0 { switch ($V) { case 1: ~m(); break; } forever { ~m(); } }",
    "def 0 { switch ($V) { case 1: x(); break; } forever { y(); } %s }",
)
# (statement, meaningless inside of a case?, meaningless inside of a loop?)
STRAY = (
    ("break;", 0, 1, "break outside a switch case"),
    ("continue;", 1, 0, "continue outside a loop"),
    ("break_loop;", 1, 0, "break_loop outside a loop"),
    ("if ($W == 9) { break; }", 0, 1, "break outside a switch case"),
    ("if ($W == 9) { y(); } else { continue; }", 1, 0, "continue outside a loop"),
    ("with (actor A) { break_loop; }", 1, 0, "break_loop outside a loop"),
    ("with (actor A) { break; }", 0, 1, "break outside a switch case"),
    ("for (continue; $V == 1; x();) { y(); }", 1, 0, "continue outside a loop"),
    ("for (break_loop; $V == 1; x();) { y(); }", 1, 0, "break_loop outside a loop"),
    ("for (break; $V == 1; x();) { y(); }", 0, 1, "break outside a switch case"),
    ("jump @nope;", 1, 1, "jump to an undefined label"),
    ("call @nope;", 1, 1, "call to an undefined label"),
    ("if ($W == 9) { jump @nope; }", 1, 1, "jump to an undefined label"),
    ("with (actor A) { call @nope; }", 1, 1, "call to an undefined label"),
    ("switch ($W) { case 1: jump @nope; }", 1, 1, "jump to an undefined label"),
    ("for (x(); $V == 1; jump @nope;) { y(); }", 1, 1, "jump to an undefined label"),
    ("switch ($W) { case 1: }", 1, 1, "a switch ending in an empty case"),
    ("switch ($W) { default: }", 1, 1, "a switch ending in an empty case"),
    ("switch ($W) { case 1: x(); case 2: }", 1, 1, "a switch ending in an empty case"),
    ("switch ($W) { case 1: x(); break; default: }", 1, 1, "a switch ending in an empty case"),
    ("switch ($W) { default: x(); break; case 1: }", 1, 1, "a switch ending in an empty case"),
    ("switch ($W) { case 1: case 2: }", 1, 1, "a switch ending in an empty case"),
    ("switch (random(3)) { case 0: x(); case 1: case 2: }", 1, 1, "a switch ending in an empty case"),
    ("switch ($W) { default: x(); default: y(); }", 1, 1, "two defaults"),
    ("switch ($W) { default: x(); case 1: z(); default: y(); }", 1, 1, "two defaults"),
    ("switch ($W) { case 1: default: default: y(); }", 1, 1, "two defaults"),
    ("switch ($W) { default: case 1: x(); break; default: y(); case 2: z(); }", 1, 1, "two defaults"),
    ("message_SwitchTalk ($W) { default: 'a' default: 'b' }", 1, 1, "two defaults"),
    ("message_SwitchMonologue ($W) { default: 'a' case 1: 'c' default: 'b' }", 1, 1, "two defaults"),
    ("message_SwitchTalk ($W) { case 1: x(); }", 1, 1, "statements inside a message switch"),
    ("message_SwitchTalk ($W) { case 1: 'a' case 2: x(); y(); }", 1, 1, "statements inside a message switch"),
    ("message_SwitchMonologue ($W) { default: x(); }", 1, 1, "statements inside a message switch"),
    ("message_SwitchMonologue ($W) { case 1: 'a' default: break; }", 1, 1, "statements inside a message switch"),
    ("message_SwitchTalk ($W) { default: 'a' case 2: return; }", 1, 1, "statements inside a message switch"),
    ("message_SwitchTalk ($W) { case 1: if ($V == 1) { x(); } case 2: 'a' }", 1, 1, "statements inside a message switch"),
    ("message_SwitchTalk ($W) { case 1: @z; case 2: 'a' }", 1, 1, "statements inside a message switch"),
    ("with (actor A) { @z; }", 1, 1, "labels inside a with-block"),
    ("with (performer 3) { §z; } jump @z;", 1, 1, "labels inside a with-block"),
    ("if (not $W[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if ($V == 1 || not $W[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if not (not $W[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if (debug) { x(); } elseif (not $W[0]) { y(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("while (not W[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("for (x(); not $W[3]; y();) { z(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if (not 5[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if (not 0[0]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if (not 0x1F[15]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if (not 1.5[3] || $V == 1) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("while (not -2[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("if (debug || not PERFORMANCE_PROGRESS_LIST[3]) { x(); }", 1, 1, "not on a bit test of an ordinary variable"),
    ("~unknown();", 1, 1, "unknown macro"),
    ("~unknown(1, $V);", 1, 1, "unknown macro"),
    ("~known1();", 1, 1, "too few macro arguments"),
    ("~known3(1, 2);", 1, 1, "too few macro arguments"),
    ("~known3();", 1, 1, "too few macro arguments"),
    ("jump @inmacro;", 1, 1, "label of a macro"),
    ("~known1(1); call @inmacro;", 1, 1, "label of a macro"),
    ("~labels(); jump @z2;", 1, 1, "label of a macro"),
)
KNOWN = "macro known1($a) { @inmacro; y($a); } macro known3($a, $b, $c) { y($a, $b, $c); } macro labels() { @z2; x(); } "


def stray_cases(q):
    depth2 = list(product(BLOCKS, repeat=2))
    if q:
        depth2 = [(a, b) for i, (a, b) in enumerate(depth2) if i % 3 == 0]
    for st, in_case, in_loop, why in STRAY:
        for place in PLACES:
            for nest in [()] + [(b,) for b in BLOCKS] + depth2:
                c, l = any(b[1] for b in nest), any(b[2] for b in nest)
                if c and not in_case and not (in_case or in_loop):
                    continue
                if why.startswith("break outside") and c:
                    continue
                if why.startswith(("continue", "break_loop")) and l:
                    continue
                for around in AROUND if len(nest) < 2 or not q else AROUND[:1]:
                    t = around % st
                    for b in reversed(nest):
                        t = b[0] % t
                    for pre, post in ((KNOWN, ""), ("", KNOWN)) if not nest else ((KNOWN, ""),):
                        yield (pre + place % t + post, why)


def run_stray(case, rec):
    for text, why in case:
        attempt(text, rec, must_reject=why, case=((text, why),))


# ---- bodies whose meaning is judged by the specification -------------------------------------------------------------
JUDGED = ("not on bit test", "break", "continue", "break_loop", "label in with", "two defaults", "switch ends in empty case", "unknown macro", "too few macro arguments", "undefined label")


def body_cases(feats, labels, n):
    g = gen.G(feats, labels, 3)
    for k in range(1, n + 1):
        # everywhere "inside" a switch and a loop: strays wherever they are not
        for sw in (False, True):
            for lp in (False, True):
                for b in g.blocks(k, sw, lp, 3):
                    if b:
                        yield gen.number(b)


def run_body(b, rec):
    for routines in (
        (("generic", 0, None, None, b),),
        (("generic", 0, None, None, (("op", "first", (), None),)), ("generic", 1, None, None, b)),
    ):
        why = None
        try:
            src.meaning(routines)
        except src.Meaningless as e:
            why = str(e)
        judged = why is not None and why.startswith(JUDGED)
        text = src.render(routines)
        if why is None:
            rec.outcome("meaningful")
        attempt(text, rec, must_reject=why if judged else None, case=b)


# ---- macros -----------------------------------------------------------------------------------------------------------
def macro_graph_texts(n):
    """Every call graph over n macros (self calls and undefined ones included) x definition order x called macro."""
    names = [f"m{i}" for i in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(n + 1)]  # n: not defined
    for mask in range(1 << len(pairs)):
        es = [p for b, p in enumerate(pairs) if mask >> b & 1]
        undefined = any(j == n for i, j in es)
        cyc = not macros.acyclic(n, [(i, j) for i, j in es if j < n])
        why = "recursive macros" if cyc else "unknown macro" if undefined else None
        for order in permutations(range(n)) if n < 3 else ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
            ms = ""
            for i in order:
                ms += f"macro m{i}($a) {{ x($a); " + "".join(f"~{'m%d' % j if j < n else 'undefined'}($a); " for a, j in es if a == i) + "} "
            for r in ("def 0 { x(); }", "def 0 { ~m0(1); }", f"def 0 {{ ~m{n - 1}(1); }}"):
                yield ms + r, why
                yield r + " " + ms, why


def macro_arg_texts():
    for np in range(4):
        ps = ", ".join(f"$p{i}" for i in range(np))
        for na in range(5):
            args = ", ".join(str(i) for i in range(na))
            for call in ("def 0 { ~m(%s); }", "macro n() { ~m(%s); } def 0 { ~n(); }", "macro n() { ~m(%s); } def 0 { x(); }", "def 0 { if ($V == 1) { ~m(%s); } }", "def 0 { switch ($V) { case 1: ~m(%s); } }", "def 0 { return; ~m(%s); }", "macro n() { switch ($V) { case 1: forever { ~m(%s); } } } macro o() { ~n(); } def 0 { ~o(); }"):
                yield f"macro m({ps}) {{ x({ps}); }} " + call % args, "too few macro arguments" if na < np else None
                yield call % args + f" macro m({ps}) {{ x({ps}); }}", "too few macro arguments" if na < np else None


def dense_texts(q):
    """Acyclic call graphs with very many paths."""
    for n in (12, 20) if q else (12, 20, 30):
        yield "".join(f"macro m{i}() {{ x(); }}" if i == 0 else f"macro m{i}() {{ " + "".join(f"~m{j}(); " if j == 0 else f"if ($V == {j}) {{ }} " for j in (0,)) + "}" for i in range(n)) + "def 0 { ~m1(); }", None
        # every macro mentions all former ones; each stays small because only the first one is called by the routine
        yield "".join(f"macro m{i}() {{ " + ("x();" if i == 0 else "".join(f"~m{j}();" for j in range(i) if j in (i - 1, 0, i // 2))) + "}" for i in range(n)) + "def 0 { ~m0(); }", None


def bad_pairs(it, n=50):
    yield from bundles(it, n)


# ---- imports ------------------------------------------------------------------------------------------------------------
def scratch():
    global TMP
    if TMP is None:
        TMP = tempfile.mkdtemp(prefix="c10-")
        import atexit

        atexit.register(shutil.rmtree, TMP, True)
        from multiprocessing import util

        util.Finalize(None, shutil.rmtree, args=(TMP, True), exitpriority=1)
    return TMP


def import_cases(q):
    """n files; file 0 is compiled. Edges: imports between files; flaws: what is wrong with a file."""
    flaws = (None, "missing", "routine", "routine-after", "dir", "syntax", "binary", "empty", "meaningless", "ssbs", "unused-routine")
    for n in (1, 2, 3):
        pairs = [(i, j) for i in range(n) for j in range(n)]
        for mask in range(1 << len(pairs)):
            es = tuple(p for b, p in enumerate(pairs) if mask >> b & 1)
            if q and n == 3 and any(i == j for i, j in es) and mask % 3:
                continue
            for style in ("rel", "lookup", "abs") if n < 3 or not q else ("rel",):
                for f in flaws if n > 1 else (None,):
                    for who in range(1, n) if f else (0,):
                        if n == 3 and f not in (None, "missing", "routine", "routine-after") and q:
                            continue
                        yield (n, es, style, f, who)


def reachable_files(n, es):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for i, j in es:
            if i == a and j not in seen:
                seen.add(j)
                todo.append(j)
    return seen


def run_import(case, rec):
    n, es, style, flaw, who = case
    root = os.path.join(scratch(), "w")
    shutil.rmtree(root, True)
    libs = os.path.join(root, "lib")
    os.makedirs(libs)
    files = []
    for i in range(n):
        d = root if i == 0 else libs
        files.append(os.path.join(d, f"f{i}.exps"))

    def imp(i, j):
        if style == "abs":
            return files[j]
        if style == "lookup" and j > 0:
            return f"f{j}.exps"
        rel = os.path.relpath(files[j], os.path.dirname(files[i]))
        return rel if rel.startswith(".") else "./" + rel

    def text(i):
        t = "".join(f'import "{imp(i, b)}";\n' for a, b in es if a == i)
        fl = flaw if who == i else None
        if fl == "routine":
            t += "def 0 { x(); }\n"
        if fl == "meaningless":
            return t + f"macro m{i}() {{ jump @nope; }}"
        t += f"macro m{i}($a) {{ op{i}($a); }}\n"
        if fl == "routine-after":
            t += "coro C { x(); }\n"
        if fl == "syntax":
            t += "macro {"
        if fl == "empty":
            t = ""
        if fl == "ssbs":
            t = "//?: is-ssb-script: true\ndef 0 { x(); }"
        if i == 0:
            t += "def 0 { ~m0(1); }"
        return t

    for i in range(n):
        fl = flaw if who == i else None
        if fl == "missing":
            continue
        if fl == "dir":
            os.mkdir(files[i])
            continue
        with open(files[i], "wb") as fh:
            fh.write(b"\xff\xfe\x00\x80def" if fl == "binary" else text(i).encode())
    if flaw in ("empty", "ssbs", "missing", "dir", "binary"):
        es = tuple(e for e in es if e[0] != who)
    live = reachable_files(n, es)
    sub = [(a, b) for a, b in es if a in live]
    why = None
    if any(a == b for a, b in sub) or not macros.acyclic(n, sub):
        why = "cyclic imports"
    elif flaw and who in live:
        why = {
            "missing": "missing import", "dir": "missing import", "routine": "routines in an imported file", "routine-after": "routines in an imported file",
            "syntax": "syntax error", "binary": "not a text", "ssbs": "routines in an imported file", "meaningless": "undefined label in an imported macro",
        }.get(flaw)
    key = f"files={n} imports={case[1]} {style} {flaw}@{who}"
    os.symlink(root, os.path.join(root, "link"))
    # the path of the compiled file may be spelled in any way
    for name in (files[0], os.path.join(root, ".", "lib", "..", "f0.exps"), os.path.join(root, "link", "f0.exps")):
        ok = attempt(text(0), rec, key=key + " " + name[len(root):], must_reject=why, name=name, lookup=[libs], case=case)
    if why is None:
        rec.outcome("meaningful import accepted" if ok else "meaningful import rejected")


IMPORT_TEXTS = ("", ".", "..", "/", "./", "../", "./.", "./..", "x", "x/y", "x/../y", "./x/../x", "//", "\\n", "./\\'", "/dev/null/x", "./main.exps", "./nul\\0", "~", "$HOME", "http://x", "a" * 300, "./" + "a" * 300, "./sub", "sub", "lib.exps", "./\u0000")


def import_text_cases():
    for t in IMPORT_TEXTS:
        for pre in ("", 'import "./lib.exps";'):
            for lookup in ((), ("{root}",), ("{root}/missing",), ("",), (".",)):
                yield t, pre, lookup


def run_import_text(case, rec):
    t, pre, lookup = case
    root = os.path.join(scratch(), "t")
    shutil.rmtree(root, True)
    os.makedirs(os.path.join(root, "sub"))
    open(os.path.join(root, "lib.exps"), "w").write("macro q() { x(); }")
    text = pre + f'import "{t}";\ndef 0 {{ x(); }}'
    open(os.path.join(root, "main.exps"), "w").write(text)
    attempt(text, rec, key=repr(case), name=os.path.join(root, "main.exps"), lookup=[x.format(root=root) for x in lookup], case=case)


def spaces(tier):
    q = tier == "quick"
    mk = lambda name, gen, run, bound, chunk=2, timeout=60: runner.Space(name, gen, run, bound, chunk=chunk, timeout=timeout)
    sp = [
        mk("tokens", lambda: bundles(token_texts(q)), run_texts, f"all sequences of up to 2 of {len(TOKENS)} tokens at top level and in {len(HOLES)} places, of 3 of {len(STMT_TOKENS)} tokens in {2 if q else len(HOLES)} places"),
        mk("edits", lambda: bundles(edit_texts(q)), run_texts, f"all single token edits (delete, double, swap, truncate, replace by / insert any of {len(TOKENS)} tokens) of {len(BASES)} programs covering the grammar"),
        mk("chars", lambda: bundles(char_texts(q)), run_texts, f"all strings of up to {2 if q else 3} characters and attribute-line fragments"),
        mk("degenerate", lambda: bundles(degenerate_texts(), 20), run_texts, "degenerate routines, ids, targets"),
        mk("deep", lambda: deep_texts(q), run_deep, "deeply nested and long programs at the default recursion limit", chunk=1, timeout=120),
        mk("strays", lambda: bundles(stray_cases(q), 50), run_stray, f"{len(STRAY)} statically meaningless statements x nesting in up to 2 of {len(BLOCKS)} blocks x {len(AROUND)} surroundings x {len(PLACES)} places"),
        mk("bodies", lambda: body_cases("osxijcldw", ("a",), 3 if q else 4), run_body, "all bodies with unrestricted labels, break and continue; the specification judges", chunk=64, timeout=10),
        mk("macro-graphs", lambda: bundles((x for n in (1, 2, 3) for x in macro_graph_texts(n)), 50), run_stray, "all macro call graphs over 1..3 macros (self calls, undefined macros) x definition orders x called macro"),
        mk("macro-args", lambda: bundles(macro_arg_texts(), 20), run_stray, "0..3 parameters x 0..4 arguments x places"),
        mk("dense-macros", lambda: bundles(dense_texts(q), 1), run_stray, "acyclic call graphs with many paths", chunk=1),
        mk("imports", lambda: import_cases(q), run_import, "all import graphs over 1..3 files x flaws x import styles", chunk=16, timeout=20),
        mk("import-texts", import_text_cases, run_import_text, "degenerate import paths", chunk=8),
    ]
    if not q:
        sp.append(mk("edits2", lambda: bundles(edit2_texts()), run_texts, "all pairs of deletions and all transpositions of two tokens"))
    return sp


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
