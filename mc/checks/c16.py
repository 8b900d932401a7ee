"""C16: layout, comments and alternative spellings do not change the compiled ops.

Base programs covering the grammar are cut into tokens; every re-spelling of the token sequence within the bounds is really
compiled and must give the ops, routine table and position marks of the base. An independent tokenizer (mc.reader) decides
which texts have the same token sequence.
"""
from __future__ import annotations

import os
import sys
from itertools import product

from mc import forms, reader, runner, src, ssb
from mc.checks import c10

PROPERTY = "C16"
ASSUMPTIONS = [
    "the source map positions are not compared, the list of position marks is compared without its positions",
    "texts with the same tokens, in the sense of the lexer rules of the grammar, are re-spellings of each other",
]
DATA = os.path.join(runner.VERIF, "mc", "data")
SSBS = "//?: is-ssb-script: true\n"


def answer(text, perf=ssb.PPL):
    """What is compiled from text, without positions."""
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    c = ExplorerScriptSsbCompiler(perf, [DATA])
    try:
        c.compile(text, "/nonexistent/main.exps")
    except c10.documented() as e:
        return ("rejected", type(e).__name__, str(e))
    sm = c.source_map
    key = lambda m: (m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)
    return (
        "ok",
        tuple((i.type.name, i.linked_to, i.linked_to_name) for i in c.routine_infos),
        tuple(str(x) for x in c.named_coroutines),
        tuple(tuple((o.offset, o.op_code.name, tuple((type(p).__name__,) + ssb.norm(p) for p in o.params)) for o in r) for r in c.routine_ops),
        tuple(sorted(map(key, sm.get_position_marks__direct()))),
        tuple(sorted((f, m, key(p)) for f, m, p in sm.get_position_marks__macros())),
    )


def diff(a, b):
    if a[0] != b[0]:
        return f"{a[:3] if a[0] == 'rejected' else 'accepted'} / {b[:3] if b[0] == 'rejected' else 'accepted'}"
    for what, x, y in zip(("", "routine table", "coroutine names", "ops", "position marks", "position marks of macros"), a, b):
        if x != y:
            return f"{what}:\n{x}\n{y}"


def tokens(text):
    pre = SSBS if text.startswith(SSBS) else ""
    return pre, [(t.kind, t.text) for t in reader.tokens(text[len(pre):])[:-1]]


_base = {}


def base(text):
    if text not in _base:
        if len(_base) > 500:
            _base.clear()
        pre, toks = tokens(text)
        canon = pre + " ".join(t for _, t in toks)
        _base[text] = (pre, toks, answer(canon))
    return _base[text]


def same_tokens(text, pre, toks):
    try:
        return [(t.kind, t.text) for t in reader.tokens(text[len(pre):])[:-1]] == toks
    except reader.ReadError:
        return False


def check(text, ref, rec, b, what):
    rec.states(1)
    rec.transitions(1)
    rec.trace()
    a = answer(text)
    if a != ref:
        rec.violation("differs", text, f"{what}; base: {b}\n{diff(ref, a)}", None)


# ---- base programs --------------------------------------------------------------------------------------------------
EXTRA = (
    'import "lib.exps"; import \'lib.exps\'; def 0 { ~lib_m(1); ~lib_m("s",); }',
    "macro m ( $a , $b ) { x ( $a ) ; if ( $a == $b ) { return ; } ~n ( $b ) ; } macro n ( $c ) { y ( $c , Position < 'p' , 1 , 2.5 > ) ; @ l ; jump @ l ; } def 0 { ~m ( 1 , 2 ) ; ~n ( Position < 'q' , 3 , 4 > ) ; }",
    "coro A { x ( ) ; } coro B { alias previous ; } coro C_3 { @ a ; § b ; jump @ b ; call @ a ; }",
    "def 0 for actor ACTOR_X { x ( ) ; } def 1 for object 3 { y ( ) ; } def 2 for performer $P { z ( ) ; }",
    "def 1 for_actor ( 5 ) { x ( ) ; } def 0 for_object ( OBJ ) { alias previous ; } def 2 for_performer ( -1 ) { z ( ) ; }",
    "def 0 { x ( 1 , -1 , 0 , 10 , 255 , -255 , 1.5 , -0.25 , .5 , -.5 , 0.5 , 100.001 ) ; $V [ 5 ] = 1 ; $V = scn [ 1 , 10 ] ; }",
    "def 0 { if ( $V [ 3 ] || not $PERFORMANCE_PROGRESS_LIST [ 12 ] || scn ( $S ) == [ 1 , 20 ] || 3 & 8 || V &<< value ( 9 ) ) { x ( ) ; } }",
    "def 0 { switch ( scn ( 3 ) [ 1 ] ) { case 10 : x ( ) ; break ; case < 20 : y ( ) ; case menu2 ( 17 ) : case menu ( 'it' ) : default : z ( ) ; } }",
    "def 0 { switch ( message_SwitchMenu ( 1 , 'a' , { english = 'b' , german = '''c''' } ) ) { case menu ( { e = 'x' } ) : x ( ) ; } }",
    "def 0 { message_SwitchTalk ( $V ) { case 1 : 'a' case 11 : { e = 'b' , f = \"c\" } default : '''d''' } message_SwitchMonologue ( 3 ) { case 1 : \"a\" } }",
    "def 0 { $A -= 1 ; $A += 12 ; $A *= 3 ; $A /= 4 ; $A = -5 ; A = value ( B ) ; 3 = 4 ; $PERFORMANCE_PROGRESS_LIST [ 9 ] = 0 ; }",
    "def 0 { with ( actor 10 ) { x ( 'a' , ) ; } with ( object O ) { $V = 1 ; } a < performer 10 > ( Position < 'm' , 10.5 , -3 > , ) ; with ( actor $A ) { end ; } }",
    "def 0 { for ( $V = 0 ; $V < 10 ; $V += 1 ; ) { while ( TRUE == FALSE2 ) { forever { break_loop ; } continue ; } } }".replace("TRUE == FALSE2", "X TRUE 3"),
    "def 0 { x ( 'it\\'s' , \"say \\\"hi\\\"\" , '''two\n  lines''' , \"\"\"a\n   b\n  c\n\"\"\" , '' , 'a\\nb' , \"a // b /* c\" , '*/' ) ; }",
    SSBS + "def 0 { § a ; x ( 1 , 's' , 10 , -3 , 1.5 , Position < 'n' , 10 , 2.5 > , { e = 'f' } ) ; Jump ( @ a ) ; } def 1 for actor 12 { alias previous ; }",
    SSBS + "coro X { @ q ; @ r ; Branch ( $V , 3 , @ q ) ; } coro Y { Return ( ) ; }",
)


def bases():
    return [b for b in EXTRA] + [b for b in c10.BASES if "import" not in b and "alias" not in b and "not edit )" not in b]


def live_bases():
    out = []
    for b in bases():
        try:
            pre, toks = tokens(b)
        except reader.ReadError:
            continue
        if answer(pre + " ".join(t for _, t in toks))[0] == "ok":
            out.append(b)
    return out


def form_texts():
    """One small program for each form of statement, condition and header."""
    T = lambda *body: src.render((("generic", 0, None, None, tuple(body)),))
    x = ("op", "x", (), None)
    seen = set()

    def once(t):
        if t not in seen:
            seen.add(t)
            yield t

    for s in forms.simple_statements():
        yield from once(T(s))
    for c in forms.conditions():
        yield from once(T(("if", ((0, (c,), (x,)),), None)))
    for b in forms.switch_programs((src.I(4),)):
        yield from once(T(*b))
    for b in forms.mswitch_programs():
        yield from once(T(*b))


# ---- layout -----------------------------------------------------------------------------------------------------------
SEPS = (
    "", "  ", "\t", "\n", "\r\n", "\r", " \n\n\t ", "\\\n", "\\\r\n", "\\ \n", "//\n", "// c\n", "//c\r", "//c\r\n", "/**/", "/* c */", "/*\n*/", "/***/",
    "/*/*/", "//*/\n", "// /*\n", "/*//*/", "//'\n", '/*"*/', "/*'*/", '//"""\n', "/*'''*/", "//\\\n", "/*\\*/", "/* } ; */", "// } ; {\n", "/*é\U0001f600*/", "//é\n",
    "/*a*/ /*b*/", "// a\n// b\n", "/*a*/// b\n", "// a\n/*b*/", "//?: is-ssb-script: true\n", "/*?:*/", "//??\n", "/* * / ** /* */", "\n//?: x: y\n",
)
SEPS2 = ("", "\n", "/*c*/", "//c\n", "\\\n", "\t", "/*'*/", '//"\n')
SKIP0 = "//?:"


def join(pre, toks, seps):
    """seps[i] stands before token i, the last one at the end."""
    out = [pre]
    for (k, t), s in zip(toks, seps):
        out += [s, t]
    out.append(seps[len(toks)])
    return "".join(out)


def run_sep1(case, rec):
    b, i = case
    pre, toks, ref = base(b)
    n = len(toks)
    for s in SEPS:
        if i == 0 and s.strip().startswith(SKIP0):
            continue
        for around in (("", ""), (" ", ""), ("", " ")) if s.strip() else (("", ""),):
            seps = [" "] * n + [""]
            seps[i] = around[0] + s + around[1]
            t = join(pre, toks, seps)
            if same_tokens(t, pre, toks):
                check(t, ref, rec, b, f"separator {s!r} before token {i}")


def sep1_cases():
    for b in live_bases():
        for i in range(len(tokens(b)[1]) + 1):
            yield b, i


def run_sep2(case, rec):
    b, i, d = case
    pre, toks, ref = base(b)
    n = len(toks)
    for s, u in product(SEPS2, repeat=2):
        seps = [" "] * n + [""]
        seps[i], seps[i + d] = s, u
        t = join(pre, toks, seps)
        if same_tokens(t, pre, toks):
            check(t, ref, rec, b, f"separators {s!r}, {u!r} before tokens {i}, {i + d}")


def sep2_cases(q):
    for b in live_bases():
        n = len(tokens(b)[1])
        for d in (1,) if q else (1, 2, 3):
            for i in range(n + 1 - d):
                yield b, i, d


def uniform(pre, toks, s):
    """s between all tokens; where that glues two tokens together, a space is added."""
    seps = [s] * (len(toks) + 1)
    if s.strip().startswith(SKIP0):
        seps[0] = ""
    for i in range(1, len(toks)):
        two = toks[i - 1:i + 1]
        if not same_tokens(two[0][1] + seps[i] + two[1][1], "", two):
            seps[i] = seps[i] + " " if same_tokens(two[0][1] + seps[i] + " " + two[1][1], "", two) else " " + seps[i]
    t = join(pre, toks, seps)
    return t if same_tokens(t, pre, toks) else None


def run_uniform(b, rec, use=SEPS):
    pre, toks, ref = base(b)
    if ref[0] != "ok":
        rec.outcome("base rejected")
        return
    for s in use:
        t = uniform(pre, toks, s)
        if t is not None:
            check(t, ref, rec, b, f"separator {s!r} everywhere")
        else:
            rec.outcome("glued")
    # one token per line, growing indentation
    t = join(pre, toks, ["\n" + " " * (i % 7) for i in range(len(toks))] + ["\n"])
    if same_tokens(t, pre, toks):
        check(t, ref, rec, b, "indented")


COMMENT_ALPHA = "*/\"'\\a{}\n;:?$é"


def comment_cases(q):
    n = 3 if q else 4
    for k in range(n + 1):
        for c in product(COMMENT_ALPHA, repeat=k):
            yield "".join(c)


COMMENT_BASE = "def 0 { x ( 'a' ) ; if ( $V [ 1 ] ) { y ( 1.5 ) ; } }"


def run_comment(c, rec):
    pre, toks, ref = base(COMMENT_BASE)
    n = len(toks)
    for i in (0, 4, 5, 6, 9, n):
        for s in ("/*" + c + "*/", "//" + c + "\n", "//" + c):
            if i == 0 and s.startswith(SKIP0):
                continue
            seps = [" "] * n + [""]
            seps[i] = s
            t = join("", toks, seps)
            if same_tokens(t, "", toks):
                check(t, ref, rec, COMMENT_BASE, f"comment {s!r} before token {i}")


# ---- spellings -----------------------------------------------------------------------------------------------------------
def int_spellings(t):
    v = int(t, 0)
    sign, a = ("-", -v) if v < 0 else ("", v)
    out = [f"{sign}{a}", f"{sign}0x{a:x}", f"{sign}0X{a:X}", f"{sign}0x{a:X}", f"{sign}0o{a:o}", f"{sign}0O{a:o}", f"{sign}0b{a:b}", f"{sign}0B{a:b}", f"{sign}0x00{a:x}", f"{sign}0b00{a:b}", f"{sign}0o0{a:o}"]
    if v == 0:
        out += ["00", "000", "-0", "-00", "-0x0"]
    return [x for x in out if x != t]


def dec_spellings(t):
    sign = "-" if t.startswith("-") else ""
    i, f = t[len(sign):].split(".")
    i = i.lstrip("0")
    return [x for x in (f"{sign}{z}{i}.{f}" for z in ("", "0", "00", "0000000")) if x != t]


def str_spellings(t, multi_ok):
    is_multi = t[:3] in ("'''", '"""')
    v = reader.decode_multi(t) if is_multi else reader.decode_single(t)
    cand = []
    for q in "'\"":
        cand.append(q + v.replace("\n", "\\n").replace(q, "\\" + q) + q)
        cand.append(q + v.replace("\n", "\\n").replace("'", "\\'").replace('"', '\\"') + q)
        if multi_ok:
            cand.append(q * 3 + v + q * 3)
            if "\n" in v:
                cand.append(q * 3 + "\n" + "\n".join("      " + x for x in v.split("\n")) + "\n   " + q * 3)
    out = []
    for c in cand:
        if c == t or c in out:
            continue
        try:
            tk = reader.tokens(c)
        except reader.ReadError:
            continue
        m = c[:3] in ("'''", '"""') and len(c) >= 6
        if len(tk) == 2 and tk[0].kind == ("mstr" if m else "str") and (reader.decode_multi(c) if m else reader.decode_single(c)) == v:
            out.append(c)
    return out


def spellings(toks, i, ssbs):
    """Alternatives for the tokens from i on: (number of tokens replaced, new tokens)."""
    k, t = toks[i]
    prev = toks[i - 1][1] if i else ""
    if k == "int":
        for x in int_spellings(t):
            yield 1, [("int", x)]
    elif k == "dec":
        for x in dec_spellings(t):
            yield 1, [("dec", x)]
    elif k in ("str", "mstr"):
        single_only = prev == "import" or (prev == "<" and toks[i - 2][1] == "Position")
        for x in str_spellings(t, not single_only):
            yield 1, [("mstr" if x[:3] in ("'''", '"""') and len(x) >= 6 else "str", x)]
    elif t in "@§" and prev not in ("jump", "call", "(", ","):
        yield 1, [("p", "§" if t == "@" else "@")]
    elif t == "for" and toks[i + 1][1] in ("actor", "object", "performer"):
        yield 3, [("kw", "for_" + toks[i + 1][1]), ("p", "("), toks[i + 2], ("p", ")")]
    elif t in ("for_actor", "for_object", "for_performer"):
        yield 4, [("kw", "for"), ("id", t[4:]), toks[i + 2]]
    elif t == ")" or t == "}":
        # trailing comma of an argument list or of a language string
        depth, j = 0, i
        while True:
            if toks[j][1] in (")", "}"):
                depth += 1
            elif toks[j][1] in ("(", "{"):
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        before = toks[j - 1]
        args = False
        if t == ")" and j < i - 1 and j:
            # operation, macro call (not the definition)
            args = before[0] == "macro" or (before[0] == "id" and toks[j - 2][1] != "macro") or (before[1] == ">" and before[0] == "p")
        elif t == "}" and j < i - 3 and toks[j + 2][1] == "=" and toks[j + 3][0] in ("str", "mstr"):
            args = True
        if args:
            if prev == ",":
                yield "drop", None
            else:
                yield 0, [("p", ",")]


def respelled(toks, i, alt):
    n, new = alt
    if n == "drop":
        return toks[:i - 1] + toks[i:]
    return toks[:i] + new + toks[i + n:]


def run_spell1(case, rec):
    b, i = case
    pre, toks, ref = base(b)
    if ref[0] != "ok":
        return
    for alt in spellings(toks, i, bool(pre)):
        new = respelled(toks, i, alt)
        t = join(pre, new, [" "] * len(new) + [""])
        check(t, ref, rec, b, f"token {i}: {alt}")
        t = uniform(pre, new, "")
        if t:
            check(t, ref, rec, b, f"token {i}: {alt}, no spaces")


def spell1_cases():
    for b in live_bases():
        for i in range(len(tokens(b)[1])):
            yield b, i


def run_form(b, rec):
    run_uniform(b, rec, ("", "\n", "/*c*/", "//c\n", "\\\n", "\t", "/*'*/", '//"\n'))
    run_spellall(b, rec, 4, (" ", ""))


def run_spellall(b, rec, alternatives=12, layouts=(" ", "", "\n", "/*c*/", "//'\n")):
    """The k-th alternative for every token at once, in several layouts."""
    pre, toks, ref = base(b)
    if ref[0] != "ok":
        return
    for k in range(alternatives):
        new = list(toks)
        for i in reversed(range(len(toks))):
            alts = list(spellings(toks, i, bool(pre)))
            if alts:
                a = alts[k % len(alts)]
                if a[0] == "drop":
                    new = new[:i - 1] + new[i:]
                else:
                    new = new[:i] + a[1] + new[i + a[0]:]
        for s in layouts:
            t = uniform(pre, new, s)
            if t:
                check(t, ref, rec, b, f"all tokens, alternative {k}, separator {s!r}")


def spell2_cases(q):
    for b in live_bases():
        toks = tokens(b)[1]
        pos = [i for i in range(len(toks)) if any(True for _ in spellings(toks, i, False))]
        for x, i in enumerate(pos):
            for j in pos[x + 1:]:
                yield b, i, j


def run_spell2(case, rec):
    b, i, j = case
    pre, toks, ref = base(b)
    if ref[0] != "ok":
        return
    for a2 in list(spellings(toks, j, bool(pre)))[:4]:
        t2 = respelled(toks, j, a2)
        for a1 in list(spellings(toks, i, bool(pre)))[:4]:
            if isinstance(a1[0], int) and i + a1[0] > j:
                continue
            new = respelled(t2, i, a1)
            check(join(pre, new, [" "] * len(new) + [""]), ref, rec, b, f"tokens {i}: {a1} and {j}: {a2}")


# ---- literals ---------------------------------------------------------------------------------------------------------
INT_PLACES = (
    "def 0 {{ x({0}); }}",
    "def 0 {{ $V[{0}] = 1; }}",
    "def 0 {{ {0} = {0}; }}",
    "def 0 {{ if ({0} == {0}) {{ x(); }} }}",
    "def 0 {{ if ($V[{0}]) {{ x(); }} }}",
    "def 0 {{ if (scn($V) == [{0}, {0}]) {{ x(); }} }}",
    "def 0 {{ $V = scn[{0}, {0}]; }}",
    "def 0 {{ switch (random({0})) {{ case {0}: x(); case > {0}: y(); case menu2({0}): z(); }} }}",
    "def 0 {{ switch (dungeon_mode({0})) {{ case {0}: x(); }} }}",
    "def 0 {{ dungeon_mode({0}) = {0}; adventure_log = {0}; clear {0}; }}",
    "def 0 {{ x(Position<'a', {0}, {0}>); }}",
    "def 0 for actor {0} {{ x(); }}",
    "def 0 for_object({0}) {{ x(); }}",
    "def 0 {{ x<actor {0}>(); with (object {0}) {{ y(); }} }}",
    "macro m($a) {{ x($a); }} def 0 {{ ~m({0}); }}",
    SSBS + "def 0 {{ x({0}, Position<'a', {0}, {0}>); }} def 1 for actor {0} {{ y(); }}",
)
DEC_PLACES = (
    "def 0 {{ x({0}); }}", "def 0 {{ {0} = {0}; if ({0} < {0}) {{ y(); }} }}", "def 0 {{ switch ({0}) {{ case {0}: x(); case >= value({0}): z(); }} }}", "macro m($a) {{ x($a); }} def 0 {{ ~m({0}); }}",
    "def 0 for actor {0} {{ x(); }}", SSBS + "def 0 {{ x({0}); }}",
)
POS_PLACES = ("def 0 {{ x(Position<'a', {0}, {0}>); }}", SSBS + "def 0 {{ x(Position<'a', {0}, 1>, Position<'b', -3, {0}>); }}")


def literal_cases(q):
    ints = list(range(-20, 21)) + [x for k in (5, 6, 7, 8, 9, 10, 15, 16, 31, 32) for x in ((1 << k) - 1, 1 << k, -(1 << k))]
    for v in ints:
        for p in INT_PLACES:
            yield p, str(v), tuple(int_spellings(str(v)))
    for i in ("", "0", "1", "7", "8", "10", "99", "1000"):
        for f in ("0", "5", "05", "50", "25", "001", "999", "00390625"):
            for s in ("", "-"):
                t = f"{s}{i}.{f}"
                for p in DEC_PLACES:
                    yield p, t, tuple(dec_spellings(t))
                if f == "5":
                    for p in POS_PLACES:
                        yield p, t, tuple(dec_spellings(t))


def run_literal(case, rec):
    p, t, alts = case
    ref = answer(p.format(t))
    rec.outcome(ref[0])
    for a in alts:
        rec.states(1)
        rec.trace()
        b = answer(p.format(a))
        if b != ref and not (b[0] == ref[0] == "rejected"):
            rec.violation("differs", p.format(a), f"{t} / {a}\n{diff(ref, b)}")


STR_ALPHA = "a'\"\\n \n"
STR_PLACES = (("def 0 {{ x({0}); }}", True), ("def 0 {{ x({{e={0}}}); }}", True), ("def 0 {{ x(Position<{0}, 1, 2>); }}", False), (SSBS + "def 0 {{ x({0}, {{e={0}}}); }}", True), ("def 0 {{ message_SwitchTalk ($V) {{ case 1: {0} }} }}", True), ("def 0 {{ switch (f()) {{ case menu({0}): x(); }} }}", True))


def string_cases(q):
    groups = {}
    n = 3 if q else 5
    for k in range(n + 1):
        for c in product(STR_ALPHA, repeat=k):
            c = "".join(c)
            for qt in ("'", '"', "'''", '"""'):
                t = qt + c + qt
                try:
                    tk = reader.tokens(t)
                except reader.ReadError:
                    continue
                kind = "mstr" if len(qt) == 3 else "str"
                if len(tk) != 2 or tk[0].kind != kind or tk[0].text != t:
                    continue
                groups.setdefault(reader.decode_multi(t) if kind == "mstr" else reader.decode_single(t), []).append(t)
    for v, ts in groups.items():
        if len(ts) > 1:
            yield tuple(ts)


def run_strings(ts, rec):
    for p, multi in STR_PLACES:
        use = [t for t in ts if multi or not (t[:3] in ("'''", '"""') and len(t) >= 6)]
        if len(use) < 2:
            continue
        ref = answer(p.format(use[0]))
        for t in use[1:]:
            rec.states(1)
            rec.trace()
            b = answer(p.format(t))
            if b != ref:
                rec.violation("differs", p.format(t), f"{use[0]} / {t}\n{diff(ref, b)}")


def spaces(tier):
    q = tier == "quick"
    S = runner.Space
    fm = lambda: (t for i, t in enumerate(form_texts()) if not q or i % 4 == 0)
    n = len(bases())
    sp = [
        S("separators", sep1_cases, run_sep1, f"{n} programs covering the grammar x every token boundary x {len(SEPS)} separators", chunk=4, timeout=120),
        S("separators2", lambda: sep2_cases(q), run_sep2, f"every pair of {'adjacent' if q else 'near'} boundaries x {len(SEPS2)}^2 separators", chunk=4, timeout=120),
        S("uniform", live_bases, run_uniform, f"each of {len(SEPS)} separators at all boundaries, also none", chunk=1, timeout=120),
        S("forms", fm, run_form, "every form of statement, condition and header x 8 separators at all boundaries, 4 alternatives for all tokens" + (" (every 4th)" if q else ""), chunk=4, timeout=120),
        S("comments", lambda: comment_cases(q), run_comment, f"all comments with up to {3 if q else 4} of {len(COMMENT_ALPHA)} characters at 6 places", chunk=32, timeout=120),
        S("spellings", spell1_cases, run_spell1, "every alternative spelling of every token", chunk=4, timeout=120),
        S("spellings-all", live_bases, run_spellall, "alternatives for all tokens at once x 5 layouts", chunk=4, timeout=120),
        S("spellings2", lambda: (c for i, c in enumerate(spell2_cases(q)) if not q or i % 3 == 0), run_spell2, "alternatives for every pair of tokens" + (" (every 3rd pair)" if q else ""), chunk=8, timeout=120),
        S("literals", lambda: literal_cases(q), run_literal, "integers in all bases, decimals with leading zeros x places", chunk=16, timeout=60),
        S("strings", lambda: string_cases(q), run_strings, f"all string literals with up to {3 if q else 5} characters, grouped by their value", chunk=8, timeout=60),
    ]
    return sp


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
