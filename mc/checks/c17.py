"""C17: the highlighting lexer is total and loses no text.

All strings up to a length over an alphabet with one representative per class of characters the lexer tells apart, plus all
combinations of its words and delimiters, run through the real lexer; accepted programs (in many spellings) must give no
error token.
"""
from __future__ import annotations

import sys
from itertools import product

from mc import runner, reader
from mc.checks import c10, c16

PROPERTY = "C17"
ASSUMPTIONS = [
    "characters the lexer's rules do not tell apart (by class: letter, digit, other, ASCII or not) are represented by one of them",
]
NORMAL_KEY = "Pygments replaces carriage returns by line feeds and removes a byte order mark"


def lex(text, rec, accepted=False):
    from pygments.token import Error

    from explorerscript.pygments.expslexer import ExplorerScriptLexer

    rec.states(1)
    rec.trace()
    lexer = ExplorerScriptLexer()
    toks = list(lexer.get_tokens(text))
    rec.transitions(len(toks))
    out = "".join(v for _, v in toks)
    if out != text and out != text + "\n":
        norm = (text[1:] if text.startswith("\ufeff") else text).replace("\r\n", "\n").replace("\r", "\n")
        if out in (norm, norm + "\n"):
            rec.violation("normalised", NORMAL_KEY, repr(text))
        else:
            rec.violation("text", text, f"tokens give {out!r}")
    elif out == text and not text.endswith("\n") and text:
        rec.outcome("no newline appended")
    elif out == text + "\n" and text.endswith("\n"):
        rec.violation("text", text, "a newline is added to a text that already ends with one")
    # the same without the preparations of Pygments: nothing at all may change
    pos = 0
    for i, t, v in lexer.get_tokens_unprocessed(text):
        if i != pos or text[i:i + len(v)] != v:
            rec.violation("unprocessed", text, f"token {v!r} at {i}, expected position {pos}")
            break
        pos += len(v)
    else:
        if pos != len(text):
            rec.violation("unprocessed", text, f"only {pos} of {len(text)} characters")
    if accepted:
        rec.outcome("accepted program")
        bad = [v for t, v in toks if t in Error]
        if bad:
            rec.violation("error-token", text, repr(bad[:5]))
    return toks


CORE = "\"'/*\n\\$@a5 "
WIDE = ("\"", "'", "/", "*", "\n", "\\", "$", "@", "§", "~", "a", "_", "0", "5", "7", "9", "x", "b", "j", ".", "-", " ", "\t", "\r", "\f", "{", "(", "é", "\u0663", "\u2028", "\0", "\ufeff", "\ud800", "\U0001f600", "\x85", "ß", "İ")
WORDS = ('"""', "'''", '"', "'", "/*", "*/", "//", "\n", "\\", "if", "menu", "menu2", "not", "x", "$v", "@l", "§l", "~m", "0x1F", "0b1", "017", "1.5", ".5", "é5", " ", ";", "}")


def bundles(it, n=200):
    return c10.bundles(it, n)


def strings(q):
    for k in range(6 if q else 8):
        for t in product(CORE if k < 6 else CORE[:8], repeat=k):
            yield "".join(t)


def wide(q):
    for k in range(1, 4 if q else 5):
        for t in product(WIDE if k < 4 else WIDE[::2], repeat=k):
            yield "".join(t)


def words(q):
    for k in range(1, 4 if q else 5):
        for t in product(WORDS if k < 4 else WORDS[:20], repeat=k):
            yield "".join(t)


def long_texts(q):
    atoms = ('"', "'", "/*", "*/", "//", "\n", "\\", "$", "@a", "a", "if", "0", ".5", '"""', "'''", " ", "é")
    n = 300 if q else 1500
    for k in (1, 2):
        for t in product(atoms, repeat=k):
            for head, tail in (("", ""), ('"', ""), ("/*", ""), ("'''", '"'), ("def 0 { x(", "); }")):
                yield head + "".join(t) * n + tail


def run_strings(case, rec):
    for t in case:
        lex(t, rec)


def run_long(t, rec):
    n = len(rec.violations)
    lex(t, rec)
    for v in rec.violations[n:]:
        v["key"] = v["key"][:200] + f"...({len(t)})"


def chars(q):
    """Every code point (quick: every one up to U+2FFF, then every 61st) alone and in the places the rules look at."""
    for c in range(0x110000):
        if q and c > 0x2FFF and c % 61:
            continue
        yield chr(c)


def run_chars(case, rec):
    for c in case:
        for f in ("{}", "a{}", "{}a", "\"{}\"", "'''{}'''", "/*{}*/", "//{}\na", "$a{}", "@a{}", "0x1{}", "{}5", "if{}"):
            lex(f.format(c), rec)


def run_program(t, rec):
    """t: any text; what the compiler accepts must lex without error tokens."""
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    for x in t:
        try:
            ExplorerScriptSsbCompiler(c16.ssb.PPL, [c16.DATA]).compile(x, "/nonexistent/main.exps")
        except c10.documented():
            lex(x, rec)
            continue
        lex(x, rec, accepted=True)


def programs(q):
    seen = set()

    def once(t):
        if t not in seen:
            seen.add(t)
            return True

    for b in c16.live_bases():
        pre, toks = c16.tokens(b)
        for s in c16.SEPS:
            t = c16.uniform(pre, toks, s)
            if t is not None and once(t):
                yield t
        n = len(toks)
        for i in range(n + 1):
            for s in c16.SEPS[:: 3 if q else 1]:
                seps = [" "] * n + [""]
                seps[i] = s
                t = c16.join(pre, toks, seps)
                if once(t):
                    yield t
    for i, t in enumerate(c16.form_texts()):
        if not q or i % 4 == 0:
            yield t
    for i, t in enumerate(c10.edit_texts(q)):
        if not q or i % 3 == 0:
            yield t
    for k in range(4 if q else 5):
        for c in product("a'\"\\n \n/*$5", repeat=k):
            c = "".join(c)
            for qt in ("'", '"', "'''", '"""'):
                yield f"def 0 {{ x({qt}{c}{qt}); }}"
            yield f"def 0 {{ x(); }} /*{c}*/"
            yield f"def 0 {{ x(); }} //{c}"


def spaces(tier):
    q = tier == "quick"
    S = runner.Space
    return [
        S("strings", lambda: bundles(strings(q)), run_strings, f"all strings of up to {5 if q else 7} of the characters {CORE!r}", chunk=4, timeout=120),
        S("wide", lambda: bundles(wide(q)), run_strings, f"all strings of up to {3 if q else 4} of {len(WIDE)} characters", chunk=4, timeout=120),
        S("words", lambda: bundles(words(q)), run_strings, f"all sequences of up to {3 if q else 4} of {len(WORDS)} words and delimiters", chunk=4, timeout=120),
        S("characters", lambda: bundles(chars(q), 50), run_chars, "every " + ("61st code point, every one up to U+2FFF" if q else "code point") + " in 12 surroundings", chunk=4, timeout=120),
        S("long", lambda: long_texts(q), run_long, "one or two atoms repeated", chunk=4, timeout=60),
        S("programs", lambda: bundles(programs(q), 50), run_program, "accepted programs in all layouts of C16, token edits of C10, all short strings and comments", chunk=2, timeout=120),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
