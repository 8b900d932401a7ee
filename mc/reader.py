"""An independent reader of ExplorerScript text: text -> abstract program (as in src.py) with positions.

Hand written from docs/language_spec.rst and the grammar; shares nothing with the ANTLR parser, the compile handlers
or the literal decoders of the code under test. It is used to read what the decompilers print.
"""
from __future__ import annotations

import re

from mc.src import C, I
from mc.ssb import fixed_norm

TOKEN = re.compile(
    r"""
    (?P<skip>[ \t\r\n]+|//[^\r\n]*|/\*.*?(?:\*/|\Z)|\\[ \t\n\r]*?(?:\r?\n|\r|\f))
  | (?P<mstr>'{3}.*?'{3}|"{3}.*?"{3})
  | (?P<str>'(?:\\.|[^\\\r\n\f'])*'|"(?:\\.|[^\\\r\n\f"])*")
  | (?P<dec>-?[0-9]*\.[0-9]+)
  | (?P<int>-?(?:0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|[1-9][0-9]*|0+))
  | (?P<macro>~[A-Za-z_][A-Za-z0-9_]*)
  | (?P<var>\$[A-Za-z_][A-Za-z0-9_]*)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<p>&<<|\|\||==|<=|>=|!=|-=|\+=|\*=|/=|[=<>&^(){}\[\],;:@§+])
    """,
    re.X | re.S,
)
KEYWORDS = set(
    "FALSE TRUE not jump call import macro if elseif else forever with switch return end hold continue break break_loop value debug edit "
    "variation random sector dungeon_mode menu2 menu case default clear reset init scn dungeon_result adventure_log message_SwitchTalk "
    "message_SwitchMonologue while for_actor for_object for_performer coro def alias for previous Position".split()
)
COND = {"FALSE", "TRUE", "==", ">", "<", ">=", "<=", "!=", "&", "^", "&<<"}
ASSIGN = {"=", "-=", "+=", "*=", "/="}


class ReadError(Exception):
    pass


def decode_single(s):
    return s[1:-1].replace('\\"', '"').replace("\\'", "'").replace("\\n", "\n")


def decode_multi(s):
    """Documented dedent rules: a blank last line is dropped, the first line is not part of the common indentation and a
    blank first line is dropped."""
    body = s[3:-3]
    lines = re.split(r"\r\n|\n", body)
    if len(lines) == 1:
        return body
    first, rest = lines[0], lines[1:]
    if rest[-1].strip(" ") == "":
        rest = rest[:-1]
    ind = min((len(x) - len(x.lstrip(" ")) for x in rest), default=0)
    rest = [x[ind:] for x in rest]
    return "\n".join(([first] if first != "" or not rest else []) + rest)


class Tok:
    __slots__ = ("kind", "text", "line", "col", "eline", "ecol", "pos", "end")

    def __repr__(self):
        return f"{self.kind}:{self.text!r}@{self.line}:{self.col}"


def tokens(text):
    out = []
    pos = 0
    line = 0
    bol = 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ReadError(f"unreadable character {text[pos]!r} in line {line}")
        k = m.lastgroup
        s = m.group()
        if k == "int":
            # 01 is read as 0 followed by 1 by the language's longest match rules; never printed, so reject
            if re.match(r"[0-9]", text[m.end() : m.end() + 1] or " "):
                raise ReadError(f"integer {s} followed by a digit")
        sl, sc = line, pos - bol
        nl = s.count("\n")
        if nl:
            line += nl
            bol = pos + s.rfind("\n") + 1
        pos = m.end()
        if k == "skip":
            continue
        t = Tok()
        t.kind = "kw" if k == "id" and s in KEYWORDS else k
        t.text = s
        t.line, t.col, t.eline, t.ecol = sl, sc, line, pos - bol
        t.pos, t.end = m.start(), m.end()
        out.append(t)
    e = Tok()
    e.kind, e.text, e.line, e.col, e.eline, e.ecol, e.pos, e.end = "eof", "", line, pos - bol, line, pos - bol, pos, pos
    out.append(e)
    return out


class Reader:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.marks = []  # (what, node, line, col)
        self.posmarks = []  # (value, line, col, eline, ecol of the closing >, start, end)

    # -- tools
    @property
    def cur(self):
        return self.t[self.i]

    def peek(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def isp(self, s):
        return self.cur.text == s and self.cur.kind in ("p", "kw")

    def err(self, what):
        c = self.cur
        raise ReadError(f"expected {what} at line {c.line} column {c.col}, got {c.text!r}")

    def eat(self, s):
        if not self.isp(s):
            self.err(repr(s))
        self.i += 1
        return self.t[self.i - 1]

    def opt(self, s):
        if self.isp(s):
            self.i += 1
            return True
        return False

    def kind(self, *ks):
        if self.cur.kind not in ks:
            self.err("/".join(ks))
        self.i += 1
        return self.t[self.i - 1]

    def mark(self, what, node, tok):
        self.marks.append((what, node, tok.line, tok.col))
        return node

    # -- values
    def is_il(self):
        return self.cur.kind in ("int", "dec", "id", "var")

    def il(self):
        t = self.kind("int", "dec", "id", "var")
        return self.ilv(t)

    @staticmethod
    def ilv(t):
        if t.kind == "int":
            return I(intval(t.text))
        if t.kind == "dec":
            return ("f", fixed_norm(t.text))
        return C(t.text)

    def integer(self):
        return I(intval(self.kind("int").text))

    def strv(self):
        t = self.kind("str", "mstr")
        return decode_single(t.text) if t.kind == "str" else decode_multi(t.text)

    def string(self):
        if self.cur.kind in ("str", "mstr"):
            return ("s", self.strv())
        self.eat("{")
        out = []
        while True:
            n = self.kind("id").text
            self.eat("=")
            out.append((n, self.strv()))
            if not self.opt(","):
                break
            if self.isp("}"):
                break
        self.eat("}")
        if len(set(a for a, _ in out)) != len(out):
            raise ReadError("language given twice")
        return ("l", tuple(sorted(out)))

    def position(self):
        a = self.eat("Position")
        self.eat("<")
        name = decode_single(self.kind("str").text)
        vs = []
        for _ in range(2):
            self.eat(",")
            t = self.kind("int", "dec")
            vs.append(position_arg(t.text))
        b = self.eat(">")
        v = ("p", name, vs[0][1], vs[1][1], vs[0][0], vs[1][0])
        self.posmarks.append((v, a.line, a.col, b.line, b.col, a.pos, b.end))
        return v

    def arg(self):
        if self.is_il():
            return self.il()
        if self.isp("Position"):
            return self.position()
        return self.string()

    def arglist(self):
        """after ( up to and including )"""
        out = []
        while not self.isp(")"):
            out.append(self.arg())
            if not self.opt(","):
                break
            if not out:
                self.err("argument")
        self.eat(")")
        return tuple(out)

    # -- program
    def program(self):
        imports, macros, routines = [], [], []
        while self.isp("import"):
            self.eat("import")
            imports.append(decode_single(self.kind("str").text))
            self.eat(";")
        while self.cur.kind != "eof":
            if self.isp("macro"):
                macros.append(self.macrodef())
            else:
                routines.append(self.funcdef())
        return {"imports": tuple(imports), "macros": tuple(macros), "routines": tuple(routines)}

    def macrodef(self):
        self.eat("macro")
        name = self.kind("id").text
        self.eat("(")
        ps = []
        while not self.isp(")"):
            ps.append(self.kind("var").text)
            if not self.opt(","):
                break
        self.eat(")")
        return (name, tuple(ps), self.suite())

    def suite(self):
        self.eat("{")
        if self.isp("alias"):
            self.eat("alias")
            self.eat("previous")
            self.eat(";")
            self.eat("}")
            return "alias"
        out = []
        while not self.isp("}"):
            out.append(self.stmt())
        if not out:
            self.err("statement")
        self.eat("}")
        return tuple(out)

    def block(self):
        self.eat("{")
        out = []
        while not self.isp("}"):
            out.append(self.stmt())
        self.eat("}")
        return tuple(out)

    def funcdef(self):
        if self.opt("coro"):
            name = self.kind("id").text
            return ("coro", None, None, name, self.suite())
        self.eat("def")
        rid = intval(self.kind("int").text)
        if self.isp("{"):
            return ("generic", rid, None, None, self.suite())
        if self.cur.kind == "kw" and self.cur.text.startswith("for_"):
            kind = self.cur.text[4:]
            self.i += 1
        else:
            self.eat("for")
            kind = self.kind("id").text
            if kind not in ("actor", "object", "performer"):
                raise ReadError(f"routine kind {kind}")
        paren = self.opt("(")
        v = self.il()
        if paren:
            self.eat(")")
        return (kind, rid, v[1], None, self.suite())

    def stmt(self):
        t = self.cur
        if self.isp("with"):
            self.eat("with")
            self.eat("(")
            kind = self.kind("id").text
            tgt = self.il()
            self.eat(")")
            self.eat("{")
            s = self.simple()
            self.eat(";")
            self.eat("}")
            return self.mark("stmt", ("with", kind, tgt, s), t)
        if self.isp("if"):
            return self.if_()
        if self.isp("switch"):
            return self.switch()
        if self.isp("message_SwitchTalk") or self.isp("message_SwitchMonologue"):
            return self.mswitch()
        if self.opt("forever"):
            return self.mark("loop", ("forever", self.block()), t)
        if self.opt("while"):
            neg = int(self.opt("not"))
            self.eat("(")
            c = self.cond()
            self.eat(")")
            return self.mark("loop", ("while", neg, c, self.block()), t)
        if self.opt("for"):
            self.eat("(")
            a = self.simple()
            self.eat(";")
            c = self.cond()
            self.eat(";")
            b = self.simple()
            self.eat(";")
            self.eat(")")
            return self.mark("loop", ("for", a, c, b, self.block()), t)
        if t.kind == "macro":
            self.i += 1
            self.eat("(")
            args = self.arglist()
            self.eat(";")
            return self.mark("stmt", ("macro", t.text[1:], args), t)
        s = self.simple()
        self.eat(";")
        return s

    def simple(self):
        t = self.cur
        n = self.simple_()
        return self.mark("stmt", n, t)

    def simple_(self):
        t = self.cur
        if t.kind == "kw" or t.kind == "p":
            for k, n in (("return", "ret"), ("end", "end"), ("hold", "hold"), ("continue", "continue"), ("break", "break"), ("break_loop", "break_loop")):
                if self.opt(k):
                    return (n,)
            if self.opt("@") or self.opt("§"):
                return ("label", self.kind("id").text)
            for k in ("jump", "call"):
                if self.opt(k):
                    self.eat("@")
                    return (k, self.kind("id").text)
            for k in ("clear", "init"):
                if self.opt(k):
                    return ("assign", k, self.il())
            if self.opt("reset"):
                if self.opt("dungeon_result"):
                    return tuple(["assign", "reset", None])  # not a shared constant: marks go by identity
                return ("assign", "reset", self.scnvar())
            if self.opt("adventure_log"):
                self.eat("=")
                return ("assign", "adv", self.il())
            if self.opt("dungeon_mode"):
                self.eat("(")
                a = self.il()
                self.eat(")")
                self.eat("=")
                return ("assign", "dmode", a, self.il())
            self.err("statement")
        if t.kind == "id" and (self.peek().text in ("(",) or (self.peek().text == "<")):
            return self.operation()
        var = self.il()
        if self.opt("["):
            idx = self.integer()
            self.eat("]")
            if not self.opt("="):
                self.err("=")
            if self.isp("value"):
                raise ReadError("value() in bit assignment")
            return ("assign", "bit", var, idx, self.il())
        op = self.cur.text
        if op not in ASSIGN or self.cur.kind != "p":
            self.err("assignment operator")
        self.i += 1
        if op == "=" and self.isp("scn"):
            self.eat("scn")
            self.eat("[")
            a = self.integer()
            self.eat(",")
            b = self.integer()
            self.eat("]")
            return ("assign", "scn", var, a, b)
        v, isv = self.valueof()
        return ("assign", "set", var, op, v, isv)

    def valueof(self):
        if self.opt("value"):
            self.eat("(")
            v = self.il()
            self.eat(")")
            return v, True
        return self.il(), False

    def scnvar(self):
        self.eat("scn")
        self.eat("(")
        v = self.il()
        self.eat(")")
        return v

    def operation(self):
        name = self.kind("id").text
        ctx = None
        if self.opt("<"):
            k = self.kind("id").text
            ctx = (k, self.il())
            self.eat(">")
        self.eat("(")
        return ("op", name, self.arglist(), ctx)

    def cond(self):
        t = self.cur
        return self.mark("cond", self.cond_(), t)

    def cond_(self):
        neg = int(self.opt("not"))
        if self.cur.text in ("debug", "edit", "variation") and self.cur.kind == "kw":
            k = self.cur.text
            self.i += 1
            return ("kw", neg, k)
        if self.isp("scn") and not neg:
            v = self.scnvar()
            op = self.condop()
            self.eat("[")
            a = self.integer()
            self.eat(",")
            b = self.integer()
            self.eat("]")
            return ("scn", v, op, a, b)
        if self.cur.kind == "id" and not neg:
            # operation (possibly with inline context) or a comparison
            if self.peek().text == "(":
                o = self.operation()
                return ("cop", o[1], o[2])
            if self.peek().text == "<" and self.peek(2).kind == "id" and self.peek(3).kind in ("int", "dec", "id", "var") and self.peek(4).text == ">":
                raise ReadError("operation with inline context as condition")
        v = self.il()
        if self.opt("["):
            i = self.integer()
            self.eat("]")
            return ("bit", neg, v, i)
        if neg:
            self.err("negatable condition")
        op = self.condop()
        w, isv = self.valueof()
        return ("cmp", v, op, w, isv)

    def condop(self):
        op = self.cur.text
        if op not in COND:
            self.err("conditional operator")
        self.i += 1
        return op

    def if_(self):
        branches = []
        kw = self.eat("if")
        while True:
            neg = int(self.opt("not"))
            self.eat("(")
            cs = [self.cond()]
            while self.opt("||"):
                cs.append(self.cond())
            self.eat(")")
            bl = self.cur
            branches.append((neg, tuple(cs), self.block()))
            self.mark("if", branches[-1], kw)
            self.mark("block", branches[-1], bl)
            kw = self.cur
            if not self.opt("elseif"):
                break
        els, bl = None, None
        if self.opt("else"):
            bl = self.cur
            els = self.block()
        n = ("if", tuple(branches), els)
        if bl:
            self.mark("else", n, kw)
            self.mark("block", n, bl)
        return n

    def switch(self):
        kw = self.eat("switch")
        self.eat("(")
        t = self.cur
        h = self.mark("header", self.header(), t)
        self.eat(")")
        self.eat("{")
        cases = []
        defaults = None
        while not self.opt("}"):
            if self.isp("default"):
                ch = None
                defaults = self.eat("default")
            else:
                ck = self.eat("case")
                t = self.cur
                ch = self.mark("case", self.caseh(), t)
                self.mark("casekw", ch, ck)
            self.eat(":")
            body = []
            while not (self.isp("case") or self.isp("default") or self.isp("}")):
                if self.cur.kind in ("str", "mstr") or self.isp("{"):
                    raise ReadError("string in a switch case")
                body.append(self.stmt())
            cases.append((ch, tuple(body)))
        n = self.mark("switch", ("switch", h, tuple(cases)), kw)
        if defaults:
            self.mark("default", n, defaults)
        return n

    def header(self):
        if self.isp("scn"):
            v = self.scnvar()
            self.eat("[")
            i = self.integer()[1]
            self.eat("]")
            return ("scn", v, i)
        if self.opt("random"):
            self.eat("(")
            v = self.il()
            self.eat(")")
            return ("rnd", v)
        if self.opt("dungeon_mode"):
            self.eat("(")
            v = self.il()
            self.eat(")")
            return ("dm", v)
        if self.opt("sector"):
            self.eat("(")
            self.eat(")")
            return ("sector",)
        if self.cur.kind == "id" and self.peek().text == "(":
            o = self.operation()
            return ("hop", o[1], o[2])
        return ("var", self.il())

    def caseh(self):
        if self.opt("menu2"):
            self.eat("(")
            v = self.il()
            self.eat(")")
            return ("menu2", v)
        if self.opt("menu"):
            self.eat("(")
            v = self.string()
            self.eat(")")
            return ("menu", v)
        if self.cur.text in COND:
            op = self.condop()
            v, isv = self.valueof()
            return ("cop", op, v, isv)
        return ("v", self.il())

    def mswitch(self):
        t = self.cur
        kind = t.text[len("message_Switch") :]
        self.i += 1
        self.eat("(")
        v = self.il()
        self.eat(")")
        self.eat("{")
        cases = []
        while not self.opt("}"):
            ct = self.cur
            if self.opt("default"):
                h = None
            else:
                self.eat("case")
                h = self.il()
            self.eat(":")
            s = self.string()
            cases.append(self.mark("mcase", (h, s), ct))
        return self.mark("stmt", ("mswitch", kind, v, tuple(cases)), t)


def intval(s):
    neg = s.startswith("-")
    d = s.lstrip("-")
    base = {"0x": 16, "0X": 16, "0o": 8, "0O": 8, "0b": 2, "0B": 2}.get(d[:2], 10)
    n = int(d[2:] if base != 10 else d, base)
    return -n if neg else n


def position_arg(s):
    """(tile, half-tile offset)"""
    if "." not in s:
        return intval(s), 0
    a, b = s.split(".")
    neg = a.startswith("-")
    a = a.lstrip("-")
    n = int(a) if a else 0
    b = b.rstrip("0")
    if b not in ("", "5"):
        raise ReadError(f"position mark coordinate {s}")
    return -n if neg else n, 2 if b == "5" else 0


def read(text):
    r = Reader(text)
    return r.program(), r


def walk(x):
    """All statement-like tuples in a body."""
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from walk(y)
