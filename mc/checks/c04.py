"""C04: every parameter value survives being printed and parsed again; every literal parses to its value.

Values: all strings over an alphabet of hazardous atoms up to a length, all 16 bit integers, all 1/256 fixed points,
constants, language strings, position marks. Each is placed in the ops of really compiled templates (argument, nested
argument, case / menu header, message-switch text, ...), really decompiled (ExplorerScript and SsbScript) and the text
really recompiled; the ops must come back with equal parameters.
Literals: all spellings up to a length, compiled at the places that accept them, against this framework's own reading.
"""
from __future__ import annotations

import re
import sys
from fractions import Fraction
from itertools import product

from mc import reader, runner, ssb
from mc.checks.c07 import compile_ssbs, decompile_ssbs

PROPERTY = "C04"
ASSUMPTIONS = [
    "half-tile offsets of position marks are 0 (none) or 2 (half); the offset 4 has no spelling of its own and means the same",
    "names of constants are identifiers or variables and no keywords",
    "-0.5 as a position mark argument is the position 0 with a half-tile offset (the decimal place is stripped)",
    "fixed points are compared by numeric value and sign of zero",
]

# ---- templates -------------------------------------------------------------------------------------------------
# placeholders: string literals "@k" / integers 30000+k

def nest(depth, body, heads=("if ($A == {i}) {{", "forever {{ ", "with (actor A) {{")):
    out, close = [], []
    for i in range(depth):
        out.append("if ($A == %d) {" % (i + 1))
        close.append("}")
    return "\n".join(out) + "\n" + body + "\n" + "".join(close)


def args(n, s):
    return "\n".join(f"o({i}, {s(i)});" for i in range(n))


def S(i):
    return f'"@{i}"'


def N(i):
    return str(30000 + i)


def string_templates(n):
    t = {}
    t["arg"] = "def 0 {" + args(n, S) + "}"
    for d in (1, 2, 3):
        t[f"if{d}"] = "def 0 {" + nest(d, args(n, S)) + "return; }"
    t["else"] = "def 0 { if ($A == 1) { x(); } else { " + args(n, S) + "} }"
    t["forever"] = "def 0 { forever { " + args(n, S) + "} }"
    t["while"] = "def 0 { while ($A == 1) { " + args(n, S) + "} }"
    t["case"] = "def 0 { switch ($A) { case 1: " + args(n, S) + " break; default: y(); } }"
    t["ctx"] = "def 0 {" + "\n".join(f"o<actor A>({i}, {S(i)});" for i in range(n)) + "}"
    t["with"] = "def 0 {" + "\n".join(f"with (actor A) {{ o({i}, {S(i)}); }}" for i in range(n)) + "}"
    t["multi"] = "def 0 { " + args(n // 2, S) + "o(" + ", ".join(S(i) for i in range(n // 2, n)) + "); }"
    t["menu"] = "def 0 { switch (message_SwitchMenu(0, 1)) { " + "\n".join(f"case menu({S(i)}): o({i}); break;" for i in range(n)) + "} }"
    t["menu-if"] = "def 0 { if ($A == 1) { switch (message_SwitchMenu(0, 1)) { " + "\n".join(f"case menu({S(i)}): o({i}); break;" for i in range(n)) + "} } return; }"
    t["ifmenu"] = "def 0 { if ($A == 1) { if ($B == 2) { switch (message_SwitchMenu(0, 1)) { " + "\n".join(f"case menu({S(i)}): o({i}); break;" for i in range(n)) + "} } } return; }"
    t["msg"] = "def 0 { message_SwitchTalk ($A) { " + "\n".join(f"case {i}: {S(i)}" for i in range(n - 1)) + f" default: {S(n - 1)} }} return; }}"
    t["msg-if"] = "def 0 { if ($A == 1) { message_SwitchMonologue ($A) { " + "\n".join(f"case {i}: {S(i)}" for i in range(n - 1)) + f" default: {S(n - 1)} }} }} return; }}"
    t["msg-if2"] = "def 0 { if ($A == 1) { if ($B == 1) { message_SwitchMonologue ($A) { " + "\n".join(f"case {i}: {S(i)}" for i in range(n - 1)) + f" default: {S(n - 1)} }} }} }} return; }}"
    t["actor"] = "def 0 { x(); }\ndef 1 for actor A {" + args(n, S) + "}"
    return t


def coro_template(n):
    return "coro C {" + args(n, S) + "}"


def int_templates(n):
    """Places that accept any integer-like value."""
    t = {}
    t["arg"] = "def 0 {" + args(n, N) + "}"
    t["arg3"] = "def 0 {" + nest(3, args(n, N)) + "return; }"
    t["case"] = "def 0 { switch ($A) { " + "\n".join(f"case {N(i)}: o({i}); break;" for i in range(n)) + "} }"
    t["case-op"] = "def 0 { switch ($A) { " + "\n".join(f"case > {N(i)}: o({i}); break;" for i in range(n)) + "} }"
    t["case-var"] = "def 0 { switch ($A) { " + "\n".join(f"case <= value({N(i)}): o({i}); break;" for i in range(n)) + "} }"
    t["menu2"] = "def 0 { switch (message_SwitchMenu2(0, 1)) { " + "\n".join(f"case menu2({N(i)}): o({i}); break;" for i in range(n)) + "} }"
    t["if"] = "def 0 {" + "\n".join(f"if ($A == {N(i)}) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["if-op"] = "def 0 {" + "\n".join(f"if ($A >= {N(i)}) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["if-value"] = "def 0 {" + "\n".join(f"if ($A ^ value({N(i)})) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["if-or"] = "def 0 { if (" + " || ".join(f"$A < {N(i)}" for i in range(n)) + ") { o(); } return; }"
    t["while"] = "def 0 { " + "\n".join(f"while ($A != {N(i)}) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["assign"] = "def 0 {" + "\n".join(f"$A = {N(i)};" for i in range(n)) + "}"
    t["assign-op"] = "def 0 {" + "\n".join(f"$A -= {N(i)};" for i in range(n)) + "}"
    t["assign-value"] = "def 0 {" + "\n".join(f"$A *= value({N(i)});" for i in range(n)) + "}"
    t["with"] = "def 0 {" + "\n".join(f"with (object {N(i)}) {{ o({i}); }}" for i in range(n)) + "}"
    t["ctx"] = "def 0 {" + "\n".join(f"o<performer {N(i)}>({i});" for i in range(n)) + "}"
    t["log"] = "def 0 {" + "\n".join(f"adventure_log = {N(i)};" for i in range(n)) + "}"
    t["dmode-idx"] = "def 0 {" + "\n".join(f"dungeon_mode({N(i)}) = DMODE_OPEN;" for i in range(n)) + "}"
    t["dmode"] = "def 0 {" + "\n".join(f"dungeon_mode(7) = {N(i)};" for i in range(n)) + "}"
    t["dmode-case"] = "def 0 { switch (dungeon_mode(7)) { " + "\n".join(f"case {N(i)}: o({i}); break;" for i in range(n)) + "} }"
    t["rnd"] = "def 0 {" + "\n".join(f"switch (random({N(i)})) {{ case 1: o({i}); break; }}" for i in range(n)) + "return; }"
    t["scn-sw"] = "def 0 {" + "\n".join(f"switch (scn($A)[0]) {{ case < {N(i)}: o({i}); break; }}" for i in range(n)) + "return; }"
    t["msg"] = "def 0 { message_SwitchTalk ($A) { " + "\n".join(f"case {N(i)}: 'x'" for i in range(n)) + " } return; }"
    t["bit="] = "def 0 {" + "\n".join(f"$A[3] = {N(i)};" for i in range(n)) + "}"
    t["perf="] = "def 0 {" + "\n".join(f"{ssb.PPL}[3] = {N(i)};" for i in range(n)) + "}"
    return t


def index_templates(n):
    """Places that only accept integers."""
    t = {}
    t["bit="] = "def 0 {" + "\n".join(f"$A[{N(i)}] = 1;" for i in range(n)) + "}"
    t["bit"] = "def 0 {" + "\n".join(f"if ($A[{N(i)}]) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["nbit"] = "def 0 {" + "\n".join(f"if (not {ssb.PPL}[{N(i)}]) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["perf="] = "def 0 {" + "\n".join(f"{ssb.PPL}[{N(i)}] = 1;" for i in range(n)) + "}"
    t["scn="] = "def 0 {" + "\n".join(f"$A = scn[{N(i)}, {N(i)}];" for i in range(n)) + "}"
    t["scn"] = "def 0 {" + "\n".join(f"if (scn($A) > [{N(i)}, {N(n - 1 - i)}]) {{ o({i}); }}" for i in range(n)) + "return; }"
    t["target"] = "def 0 { x(); } " + "\n".join(f"def {i + 1} for object {N(i)} {{ o({i}); }}" for i in range(n))
    return t


def subst(rset, vals):
    infos, ops = rset

    def p(x):
        if x[0] == "s" and x[1].startswith("@"):
            return vals[int(x[1][1:])]
        if x[0] == "i" and x[1] >= 30000:
            return vals[x[1] - 30000]
        return x

    def tgt(x):
        if isinstance(x, int) and x >= 30000:
            v = vals[x - 30000]
            return v[1]
        return x

    return (
        tuple((k, tgt(t), c) for k, t, c in infos),
        tuple(tuple((n, tuple(p(x) for x in ps), t) for n, ps, t in r) for r in ops),
    )


_T = {}


def template(kind, name, n):
    key = (kind, name, n)
    if key not in _T:
        texts = {"s": string_templates, "i": int_templates, "x": index_templates}[kind](n) if name != "coro" else {"coro": coro_template(n)}
        _T[key] = ssb.canon_compiled(ssb.compile_text(texts[name]))
    return _T[key]


DM = {("c", n): ("i", i) for i, n in enumerate(ssb.DMODES)}


def canon_op(op, dmode):
    name, ps, _ = op
    if name == "CaseScenario":
        name = "CaseValue"
    if dmode:
        ps = tuple(DM.get(p, p) for p in ps)
    return (name, ps)


def differences(a, b, dmode):
    """First difference of the op sequences, by name and parameters."""
    if a[0] != b[0]:
        return f"routine table {b[0]}"
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        # where the ops stand is not this property
        x = sorted((canon_op(o, dmode) for o in x if o[0] not in ("Jump", "Return")), key=repr)
        y = sorted((canon_op(o, dmode) for o in y if o[0] not in ("Jump", "Return")), key=repr)
        for p, q in zip(x, y):
            if p != q:
                return f"{q} instead of {p}"
        if len(x) != len(y):
            return f"{len(y)} ops instead of {len(x)}"
    return None if len(a[1]) == len(b[1]) else "number of routines"


def attempt(kind, name, vals, rec):
    """None or (symptom, detail)."""
    vals = tuple(ssb.norm(ssb.mkparam(v)) for v in vals)
    rset = subst(template(kind, name, len(vals)), vals)
    dmode = name.startswith("dmode")
    for lang in ("exps", "ssbs"):
        if lang == "ssbs" and name not in ("arg", "menu", "msg", "target"):
            continue
        try:
            text, sm = ssb.decompile(rset) if lang == "exps" else decompile_ssbs(rset)
        except Exception as e:
            return f"{lang}-print", f"{type(e).__name__}: {e}"
        if lang == "exps" and text.startswith("//?:"):
            rec.outcome(f"fallback {name}")
        try:
            c = ssb.compile_text(text) if lang == "exps" else compile_ssbs(text)
            got = ssb.canon_compiled(c)
        except Exception as e:
            return f"{lang}-parse", f"{type(e).__name__}: {e}\n{text[:1500]}"
        d = differences(rset, got, dmode)
        if d:
            return f"{lang}-value", f"{d}\n{text[:1500]}"
    return None


def contents(v):
    if v[0] == "s":
        return (v[1],)
    if v[0] == "l":
        return tuple(t for _, t in v[1])
    return ()


_HAS = {}


def has_literal(s):
    """Whether any string literal of the language denotes s (exhaustive over the spellings of each character)."""
    if s in _HAS:
        return _HAS[s]
    ok = False
    lines = re.split("\n", s)
    for d in ("'''", '"""'):
        if d not in s:
            if len(lines) == 1 and not s.endswith(d[0]):
                ok = True
            if len(lines) > 1 and not all(x.startswith(" ") for x in lines):
                ok = True  # on lines of its own, the last line blank
            if len(lines) > 1 and any(not x.startswith(" ") for x in lines[1:]) and not s.endswith(d[0]):
                ok = True  # from the opening quotes on
    if not ok:
        spell = [("\\n",) if ch == "\n" else (ch, "\\" + ch) if ch in "'\"" else (ch,) for ch in s]
        for t in product(*spell):
            t = "".join(t)
            if any(SINGLE_RE[q].fullmatch(q + t + q) for q in "'\"") and reader.decode_single("'" + t + "'") == s:
                ok = True
                break
    _HAS[s] = ok
    return ok


def run_values(case, rec):
    kind, name, vals = case
    r = attempt(kind, name, vals, rec)
    rec.trace()
    rec.states(len(vals))
    if r is None:
        return
    if len(vals) > 2:
        h = (len(vals) + 1) // 2
        for part in (vals[:h], vals[h:]):
            if len(part) < 2:
                part = part * 2
            run_values((kind, name, part), rec)
        return
    if len(set(vals)) == 1 or kind == "x":
        if r[0].endswith(("-parse", "-value")) and any(not has_literal(s) for s in contents(vals[0])):
            # one finding: strings the language has no literal for (decided on the language alone)
            rec.outcome("string without a literal")
            rec.violation("no-literal", "strings no literal denotes", f"{name} {vals[0]!r}", case=(kind, name, vals))
            return
        rec.violation(f"{r[0]}", f"{name} {vals[0]!r}", r[1], case=(kind, name, vals))
        return
    for v in vals:
        run_values((kind, name, (v, v)), rec)


def chunks(it, n):
    """Bundles of exactly n values (the last one is filled up)."""
    buf = []
    for v in it:
        buf.append(v)
        if len(buf) == n:
            yield tuple(buf)
            buf = []
    if buf:
        while len(buf) < n:
            buf.append(buf[-1])
        yield tuple(buf)


# ---- values ------------------------------------------------------------------------------------------------------
ATOMS = ("'", '"', "'''", '"""', "\\", "\n", " ", "a", "n", "\r")
ATOMS2 = ATOMS + ("\t", "    ", "{", "é", "\u2028", "\x0b", "//", "@", "\\'", '\\"', "\\n", "%", "[CN]")


def strings(atoms, n):
    seen = set()
    for k in range(n + 1):
        for t in product(atoms, repeat=k):
            s = "".join(t)
            if s not in seen:
                seen.add(s)
                yield s


NB = 30
STR_T = tuple(string_templates(NB)) + ("coro",)


def string_cases(q):
    def gen():
        for b in chunks((("s", s) for s in strings(ATOMS, 4 if q else 5)), NB):
            yield ("s", "arg", b)
        for b in chunks((("s", s) for s in strings(ATOMS2, 3 if q else 4)), NB):
            yield ("s", "arg", b)
        for b in chunks((("l", (("english", s),)) for s in strings(ATOMS, 4 if q else 5)), NB):
            yield ("s", "arg", b)
        for name in STR_T:
            k = 3 if q else 4
            for b in chunks((("s", s) for s in strings(ATOMS, k)), NB):
                yield ("s", name, b)
            for b in chunks((("l", (("english", s),)) for s in strings(ATOMS, k)), NB):
                yield ("s", name, b)
            for b in chunks((("s", s) for s in strings(ATOMS2, 2 if q else 3)), NB):
                yield ("s", name, b)
            if not q or name in ("arg", "if3", "menu", "msg"):
                ss = list(strings(ATOMS if not q else ATOMS[:9], 2))
                for b in chunks((("l", (("english", s), ("french", t))) for s in ss for t in ss), NB):
                    yield ("s", name, b)
    return gen


def long_strings():
    for a in ATOMS2 + ("\x0c", "\x1c", "\x85", "\u2029", "\xa0", ""):
        for n in (30, 79, 80, 81, 120, 255, 256, 1000):
            yield "x" * n + a + "y" * n
            yield ("w " * n)[: n] + "\n" + a + "y"
        for n in (5, 10, 40):
            yield "\n".join(f"line {i}{a}" for i in range(n))
            yield "\n".join(a + " " * (i % 3) + f"l{i}" for i in range(n))
            yield a * n
            yield ("x" + a) * n
            yield (" " + a + "\n") * n
        for b in ATOMS2:
            yield a + "\n" + "q" * 100 + b
            yield f"{a}{b}" * 6


def long_cases(q):
    def gen():
        for name in ("arg", "if3", "menu", "msg") if not q else ("arg", "if3", "msg"):
            for b in chunks((("s", s) for s in long_strings()), NB):
                yield ("s", name, b)
            for b in chunks((("l", (("english", s), ("french", s[::-1]))) for s in long_strings()), NB):
                yield ("s", name, b)
    return gen


def lang_cases(q):
    names = ("english", "french", "_x", "A1", "german", "italian", "spanish")

    def vals():
        for k in range(1, len(names) + 1):
            for s in ("", "a", "it's", "a\nb", " a\n b", "\\n", "'''", "a\n", "\n"):
                yield ("l", tuple((x, s) for x in names[:k]))
                yield ("l", tuple((x, s if i else "first") for i, x in enumerate(names[:k])))
                yield ("l", tuple((x, s if i % 2 else "first\nline") for i, x in enumerate(names[:k])))

    def gen():
        for name in STR_T:
            for b in chunks(vals(), NB):
                yield ("s", name, b)
    return gen


CONSTS = ("CONST", "a_b", "$VAR", "$V", "_", "_1", "$_", "A1", "ACTOR_PLAYER", "lowercase", "X" * 40, "$CONDITION", "ends", "iff", "valueX", "menuA", "scn1", "for_", "DMODE_OPEN_X", "e", "x1", "b1", "o7")
INT_T = tuple(int_templates(NB))


def int_cases(q):
    def gen():
        full = range(-32768, 65536)
        for b in chunks((("i", v) for v in full), NB):
            yield ("i", "arg", b)
        edge = sorted(set(range(-300, 301)) | {s * 2**k + d for k in range(0, 33) for d in (-1, 0, 1) for s in (1, -1)} | set(range(-32768, 32768, 256 if q else 16)))
        for name in INT_T:
            for b in chunks((("i", v) for v in edge), NB):
                yield ("i", name, b)
        for name in index_templates(NB):
            for b in chunks((("i", v) for v in edge if name != "target" or v >= 0), NB):
                yield ("x", name, b)
        for b in chunks((("c", v) for v in CONSTS), NB):
            yield ("x", "target", b)
    return gen


def fixed_values():
    for k in range(-16384, 16384):
        v = k / 256
        yield ("f", str(v))
    yield ("f", "-0.0")


def fixed_cases(q):
    def gen():
        for b in chunks(fixed_values(), NB):
            yield ("i", "arg", b)
        some = [f for i, f in enumerate(fixed_values()) if i % (97 if q else 7) == 0] + [("f", s + w + "." + d) for s in ("", "-") for w in ("0", "1", "10", "100", "63") for d in ("0", "5", "05", "50", "996", "0039", "00390625", "500", "10")]
        for name in INT_T:
            for b in chunks(some, NB):
                yield ("i", name, b)
    return gen


def const_cases(q):
    def gen():
        for name in INT_T:
            for b in chunks((("c", v) for v in CONSTS + ssb.DMODES), NB):
                yield ("i", name, b)
        for name in ("dmode", "dmode-case", "arg"):
            for v in list(range(-1, 6)):
                yield ("i", name, (("i", v),) * 2)
    return gen


def mark_cases(q):
    rel = sorted(set(range(-40, 300) if not q else range(-12, 68)) | {-32768, 32767, 127, 128, 255, 256, -128, 10, 100})

    def gen():
        for b in chunks((("p", "m0", ox, oy, x, y) for ox in (0, 2) for oy in (0, 2) for x in rel for y in rel[:: 9 if q else 3]), NB):
            yield ("s", "arg", b)
        for b in chunks((("p", s, 0, 2, 1, 2) for s in strings(tuple(a for a in ATOMS if a not in "\r" and a != "\\") + ("é",), 3 if q else 4)), NB):
            yield ("s", "arg", b)
        for name in STR_T:
            if name.startswith(("menu", "msg", "ifmenu")):
                continue
            for b in chunks((("p", "m0", ox, oy, x, y) for ox in (0, 2) for oy in (0, 2) for x in (0, 1, 10, -3) for y in (0, 5, 255)), NB):
                yield ("s", name, b)
    return gen


# ---- literals ----------------------------------------------------------------------------------------------------
def int_literals(q):
    """(text, value) of every spelling with up to k digits."""
    k = 3 if q else 4
    for s in ("", "-"):
        sg = -1 if s else 1
        for n in range(1, k + 2):
            for ds in product("019" if n > 3 else "0123456789", repeat=n):
                d = "".join(ds)
                if d[0] == "0" and d.strip("0") != "":
                    continue
                yield s + d, sg * int(d)
        for pre, base, digs in (("x", 16, "0189aAfF"), ("o", 8, "01267"), ("b", 2, "01")):
            for p in (pre, pre.upper()):
                for n in range(1, (k + 1 if base != 2 else 9)):
                    for ds in product(digs, repeat=n):
                        d = "".join(ds)
                        yield s + "0" + p + d, sg * int(d, base)


def decimal_literals(q):
    k = 3 if q else 4
    for s in ("", "-"):
        for a in range(0, k + 1):
            for w in product("015" if a > 1 else "0123456789", repeat=a):
                for b in range(1, k + 1):
                    for d in product("059" if b > 1 else "0123456789", repeat=b):
                        yield s + "".join(w) + "." + "".join(d)


def fval(text):
    """Value with the sign of zero."""
    neg = text.startswith("-")
    return neg, Fraction(text.lstrip("-") if not text.lstrip("-").startswith(".") else "0" + text.lstrip("-"))


SINGLE_RE = {q: re.compile(r"%s(\\.|[^\\\r\n\f%s])*%s" % (q, q, q), re.S) for q in "'\""}


def single_literals(n):
    for q in "'\"":
        for k in range(n + 1):
            for t in product(("a", "n", "\\", "'", '"', " ", "//", "\n"), repeat=k):
                s = q + "".join(t) + q
                if s.startswith(q * 3) or not SINGLE_RE[q].fullmatch(s):
                    continue
                yield s


def multi_literals(n):
    for d in ("'''", '"""'):
        o = "'" if d[0] == '"' else '"'
        for k in range(n + 1):
            for t in product(("a", " ", "\n", "\\", "n", o, d[0], "\r\n"), repeat=k):
                s = "".join(t)
                if (s + d).index(d) != len(s):
                    continue
                yield d + s + d


def lit_expect(kind, text):
    if kind == "int":
        return ("i", text[1])
    if kind == "dec":
        return None
    return ("s", (reader.decode_multi if text.startswith(("'''", '"""')) else reader.decode_single)(text))


PLACES = {
    "op": (lambda ls: "def 0 {" + "".join(f"o({x});" for x in ls) + "}", "exps"),
    "ssbs": (lambda ls: "def 0 {" + "".join(f"o({x});" for x in ls) + "}", "ssbs"),
    "case": (lambda ls: "def 0 { switch ($A) {" + "".join(f"case {x}: o(); break;" for x in ls) + "} }", "exps"),
    "if": (lambda ls: "def 0 {" + "".join(f"if ($A > {x}) {{ o(); }}" for x in ls) + "}", "exps"),
    "assign": (lambda ls: "def 0 {" + "".join(f"$A += {x};" for x in ls) + "}", "exps"),
    "bit": (lambda ls: "def 0 {" + "".join(f"$A[{x}] = 1;" for x in ls) + "}", "exps"),
    "scn": (lambda ls: "def 0 {" + "".join(f"$A = scn[{x}, {x}];" for x in ls) + "}", "exps"),
    "scnif": (lambda ls: "def 0 {" + "".join(f"if (scn($A) == [{x}, {x}]) {{ o(); }}" for x in ls) + "}", "exps"),
    "with": (lambda ls: "def 0 {" + "".join(f"with (actor {x}) {{ o(); }}" for x in ls) + "}", "exps"),
    "for": (lambda ls: "".join(f"def {i} for actor {x} {{ o(); }}" for i, x in enumerate(ls)), "exps"),
    "forssbs": (lambda ls: "".join(f"def {i} for_actor({x}) {{ o(); }}" for i, x in enumerate(ls)), "ssbs"),
    "pos": (lambda ls: "def 0 {" + "".join(f"o(Position<'m', {x}, {x}>);" for x in ls) + "}", "exps"),
    "posssbs": (lambda ls: "def 0 {" + "".join(f"o(Position<'m', {x}, {x}>);" for x in ls) + "}", "ssbs"),
    "lang": (lambda ls: "def 0 {" + "".join(f"o({{english={x},}});" for x in ls) + "}", "exps"),
    "langssbs": (lambda ls: "def 0 {" + "".join(f"o({{english={x}}});" for x in ls) + "}", "ssbs"),
    "menu": (lambda ls: "def 0 { switch (message_SwitchMenu(0, 1)) {" + "".join(f"case menu({x}): o(); break;" for x in ls) + "} }", "exps"),
    "msg": (lambda ls: "def 0 { message_SwitchTalk ($A) {" + "".join(f"case 1: {x}" for x in ls) + "} }", "exps"),
    "posname": (lambda ls: "def 0 {" + "".join(f"o(Position<{x}, 1, 2.5>);" for x in ls) + "}", "exps"),
    "posnamessbs": (lambda ls: "def 0 {" + "".join(f"o(Position<{x}, 1, 2.5>);" for x in ls) + "}", "ssbs"),
}


def extract(place, c):
    """The values the literals were parsed to, in order."""
    infos = ssb.infos_of(c.routine_infos, c.named_coroutines)
    if place in ("for", "forssbs"):
        return [("i", i[1]) if isinstance(i[1], int) else ("?", i[1]) for i in infos]
    out = []
    for op in c.routine_ops[0]:
        n = op.op_code.name
        ps = [ssb.norm(p) for p in op.params]
        if place in ("op", "ssbs"):
            if n == "o":
                out.append(op.params[0])
                continue
        elif place == "case" and n == "Case":
            out.append(op.params[0])
        elif place == "if" and n == "BranchValue":
            out.append(op.params[2])
        elif place == "assign" and n == "flag_CalcValue":
            out.append(op.params[2])
        elif place == "bit" and n == "flag_CalcBit":
            out.append(op.params[1])
        elif place == "scn" and n == "flag_SetScenario":
            out.append(op.params[1] if op.params[1] == op.params[2] else None)
        elif place == "scnif" and n == "BranchScenarioNow":
            out.append(op.params[1] if op.params[1] == op.params[2] else None)
        elif place == "with" and n == "lives":
            out.append(op.params[0])
        elif place in ("pos", "posssbs") and n == "o":
            p = ps[0]
            out.append((p[2], p[4]) if (p[2], p[4]) == (p[3], p[5]) else None)
        elif place in ("lang", "langssbs") and n == "o":
            out.append(("s", dict(ps[0][1])["english"]) if ps[0][0] == "l" and len(ps[0][1]) == 1 else None)
        elif place == "menu" and n == "CaseMenu":
            out.append(op.params[0])
        elif place == "msg" and n == "CaseText":
            out.append(op.params[1])
        elif place in ("posname", "posnamessbs") and n == "o":
            out.append(("s", ps[0][1]))
    return [x if isinstance(x, tuple) or x is None else ssb.norm(x) for x in out]


def lit_ok(kind, place, lit, got):
    if got is None:
        return False
    if place in ("pos", "posssbs"):
        # position, half-tile offset
        if kind == "int":
            return got == (0, lit[1])
        whole = lit[0].split(".")[0].lstrip("-")
        w = int(whole or "0") * (-1 if lit[0].startswith("-") else 1)
        return got == (2 if lit[0].split(".")[1].rstrip("0") == "5" else 0, w)
    if kind == "int":
        return got == ("i", lit[1])
    if kind == "dec":
        return got[0] == "f" and fval(got[1]) == fval(lit[0])
    return got == lit_expect("str", lit[0])


def lit_attempt(kind, place, lits):
    mk, lang = PLACES[place]
    text = mk([x[0] for x in lits])
    try:
        c = ssb.compile_text(text) if lang == "exps" else compile_ssbs(text)
        got = extract(place, c)
    except Exception as e:
        return "literal-rejected", f"{type(e).__name__}: {e}\n{text[:300]}"
    if len(got) != len(lits):
        return "literal-value", f"{len(got)} values\n{text[:300]}"
    for x, g in zip(lits, got):
        if not lit_ok(kind, place, x, g):
            return "literal-value", f"{x[0]!r} is {g}\n{text[:300]}"
    return None


def run_literals(case, rec):
    kind, place, lits = case
    r = lit_attempt(kind, place, lits)
    rec.trace()
    rec.states(len(lits))
    if r is None:
        return
    if len(lits) > 1:
        h = len(lits) // 2
        run_literals((kind, place, lits[:h]), rec)
        run_literals((kind, place, lits[h:]), rec)
        return
    rec.violation(r[0], f"{place} {lits[0][0]!r}", r[1], case=case)


def run_reject(case, rec):
    place, lits = case
    for x in lits:
        mk, lang = PLACES[place]
        text = mk([x])
        rec.trace()
        try:
            c = ssb.compile_text(text) if lang == "exps" else compile_ssbs(text)
        except Exception:
            continue
        rec.violation("accepted", f"{place} {x!r}", f"is no half tile, compiled to {extract(place, c)}", case=(place, (x,)))


def literal_cases(q):
    def gen():
        ints = [(t, v) for t, v in int_literals(q)]
        for place in ("op", "ssbs", "case", "if", "assign", "bit", "scn", "scnif", "with", "for", "forssbs", "pos", "posssbs"):
            sel = ints if place in ("op", "ssbs") or not q else ints[:: 5]
            if place in ("for", "forssbs"):
                sel = [x for x in sel if x[1] >= 0]
            for b in chunks_plain(sel, 40):
                yield ("int", place, b)
        decs = [(t,) for t in decimal_literals(q)]
        for place in ("op", "ssbs", "case", "if", "assign", "with"):
            sel = decs if place in ("op", "ssbs") or not q else decs[:: 5]
            for b in chunks_plain(sel, 40):
                yield ("dec", place, b)
        half = [d for d in decs if d[0].split(".")[1].rstrip("0") in ("", "5")]
        for place in ("pos", "posssbs"):
            for b in chunks_plain(half, 40):
                yield ("dec", place, b)
        sing = [(t,) for t in single_literals(4 if q else 6)]
        mult = [(t,) for t in multi_literals(4 if q else 6)]
        for place in ("op", "ssbs", "lang", "langssbs", "menu", "msg"):
            full = place in ("op", "ssbs")
            for pool in (sing, mult):
                sel = pool if full or not q else [x for x in pool if len(x[0]) <= 8]
                for b in chunks_plain(sel, 40):
                    yield ("str", place, b)
        for place in ("posname", "posnamessbs"):
            for b in chunks_plain([x for x in sing if len(x[0]) <= 6], 40):
                yield ("str", place, b)
    return gen


def dedent_cases(q):
    """Multi-line literals by lines: every choice of indentation and content for up to k lines."""
    ind = (0, 1, 2, 4)
    cont = ("", "a", "b  ", "\\n")
    k = 4 if q else 5

    def lits():
        for n in range(1, k + 1):
            opts = [(" " * i) + c for i in (ind if n < 4 else ind[:3]) for c in (cont if n < 4 else cont[:2])]
            for ls in product(opts, repeat=n):
                for d in ("'''", '"""') if n < 3 else ('"""',):
                    yield (d + "\n".join(ls) + d,)

    def gen():
        for place in ("op", "ssbs"):
            for b in chunks_plain(lits(), 40):
                yield ("str", place, b)
    return gen


def reject_cases(q):
    def gen():
        bad = [t for t in decimal_literals(q) if t.split(".")[1].rstrip("0") not in ("", "5") and len(t) <= 6]
        for place in ("pos", "posssbs"):
            for b in chunks_plain(bad[:: 3 if q else 1], 20):
                yield (place, b)
    return gen


def chunks_plain(it, n):
    buf = []
    for v in it:
        buf.append(v)
        if len(buf) == n:
            yield tuple(buf)
            buf = []
    if buf:
        yield tuple(buf)


def spaces(tier):
    q = tier == "quick"
    mk = lambda name, gen, run, bound, chunk=8: runner.Space(name, gen, run, bound, chunk=chunk, timeout=120)
    return [
        mk("strings", string_cases(q), run_values, f"all strings of up to {4 if q else 5} of {len(ATOMS)} hazardous atoms and up to {3 if q else 4} of {len(ATOMS2)}, as constant and language strings, as argument; up to {3 if q else 4} atoms at all {len(STR_T)} places (nesting depths 0-3, menu headers, message switches); pairs of languages"),
        mk("long", long_cases(q), run_values, "strings of up to 2000 characters / 40 lines with every atom and pair of atoms in them"),
        mk("languages", lang_cases(q), run_values, "1-7 languages x contents x all places"),
        mk("integers", int_cases(q), run_values, f"all integers -32768..65535 as argument, edge values at {len(INT_T)} integer-like and {len(index_templates(NB))} integer places"),
        mk("fixed", fixed_cases(q), run_values, f"all multiples of 1/256 in -64..64 as argument, a sublattice and spellings at {len(INT_T)} places"),
        mk("constants", const_cases(q), run_values, f"{len(CONSTS)} names and the dungeon modes at {len(INT_T)} places"),
        mk("marks", mark_cases(q), run_values, "position marks: offsets x positions, names of hazardous atoms"),
        mk("literals", literal_cases(q), run_literals, "all spellings of integers (4 bases), decimals, single- and multi-line strings up to a length, at all places"),
        mk("dedent", dedent_cases(q), run_literals, f"multi-line strings of up to {4 if q else 5} lines, all choices of indentation and content"),
        mk("half-tiles", reject_cases(q), run_reject, "position mark arguments that are no half tile are rejected"),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
