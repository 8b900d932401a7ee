"""Source side: abstract programs, their text, and their meaning according to the language specification.

Values are the canonical parameter tuples of ssb.norm. Statements / conditions / headers are tuples, see the
renderer below. The meaning of a routine is an lts (see lts.py) built by continuation passing, never by
linearising, so that it shares nothing with the compiler's way of working.
"""
from __future__ import annotations

from mc.ssb import PPL

COND_OPS = {"FALSE": 0, "TRUE": 1, "==": 2, ">": 3, "<": 4, ">=": 5, "<=": 6, "!=": 7, "&": 8, "^": 9, "&<<": 10}
CALC_OPS = {"=": 0, "-=": 1, "+=": 2, "*=": 3, "/=": 4}
SCN_OPS = {
    "==": "BranchScenarioNow", ">=": "BranchScenarioNowAfter", "<=": "BranchScenarioNowBefore",
    ">": "BranchScenarioAfter", "<": "BranchScenarioBefore",
}
KW = {"debug": "BranchDebug", "edit": "BranchEdit", "variation": "BranchVariation"}
CTX = {"actor": "lives", "object": "object", "performer": "performer"}


def I(n):
    return ("i", n)


def C(s):
    return ("c", s)


# ---- text of values ------------------------------------------------------------------------------------------
def q(s, quote='"'):
    return quote + s.replace("\n", "\\n").replace(quote, "\\" + quote) + quote


def vtext(v):
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "c":
        return v[1]
    if k == "f":
        return v[1]
    if k == "s":
        return q(v[1])
    if k == "l":
        return "{" + ", ".join(f"{a}={q(b)}" for a, b in v[1]) + "}"
    if k == "p":
        h = lambda off: ".5" if off > 1 else ""
        return f"Position<{q(v[1])}, {v[4]}{h(v[2])}, {v[5]}{h(v[3])}>"
    if k == "raw":  # explicit spelling with its value: ("raw", text, value)
        return v[1]
    raise ValueError(v)


def val(v):
    if v[0] == "raw":
        return v[2]
    if v[0] == "l":
        return ("l", tuple(sorted(v[1])))
    return v


def args_text(args):
    return ", ".join(vtext(a) for a in args)


# ---- text -----------------------------------------------------------------------------------------------------
def cond_text(c):
    k = c[0]
    if k == "cmp":
        _, var, op, v, isv = c
        return f"{vtext(var)} {op} " + (f"value({vtext(v)})" if isv else vtext(v))
    if k == "bit":
        return ("not " if c[1] else "") + f"{vtext(c[2])}[{vtext(c[3])}]"
    if k == "kw":
        return ("not " if c[1] else "") + c[2]
    if k == "scn":
        return f"scn({vtext(c[1])}) {c[2]} [{vtext(c[3])}, {vtext(c[4])}]"
    if k == "cop":
        return f"{c[1]}({args_text(c[2])})"
    raise ValueError(c)


def header_text(h):
    k = h[0]
    if k == "var":
        return vtext(h[1])
    if k == "scn":
        return f"scn({vtext(h[1])})[{h[2]}]"
    if k == "rnd":
        return f"random({vtext(h[1])})"
    if k == "dm":
        return f"dungeon_mode({vtext(h[1])})"
    if k == "sector":
        return "sector()"
    if k == "hop":
        return f"{h[1]}({args_text(h[2])})"
    raise ValueError(h)


def case_text(h):
    k = h[0]
    if k == "v":
        return vtext(h[1])
    if k == "cop":
        return f"{h[1]} " + (f"value({vtext(h[2])})" if h[3] else vtext(h[2]))
    if k == "menu":
        return f"menu({vtext(h[1])})"
    if k == "menu2":
        return f"menu2({vtext(h[1])})"
    raise ValueError(h)


class Printer:
    """Prints with `ind` per level; records the (line, column) where each printed construct begins."""

    def __init__(self, ind="    ", nl="\n", start_line=0):
        self.out = []
        self.line = start_line
        self.col = 0
        self.ind = ind
        self.nl = nl
        self.level = 0
        self.spans = []  # (tag, line, col)
        self.bol = True

    def put(self, s):
        if not s:
            return
        self.out.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rfind("\n") - 1
        else:
            self.col += len(s)

    def start(self):
        """Begin a statement: on its own line, or on the same line when nl is not a newline."""
        self.put(self.nl if self.out else "")
        if "\n" in self.nl:
            self.put(self.ind * self.level)

    def mark(self, tag):
        self.spans.append((tag, self.line, self.col))

    def text(self):
        return "".join(self.out)

    # -- statements
    def block(self, stmts):
        self.put("{")
        self.level += 1
        for s in stmts:
            self.stmt(s)
        self.level -= 1
        self.start()
        self.put("}")

    def simple(self, s):
        k = s[0]
        self.mark(s)
        if k == "op":
            _, name, args, ctx = s
            c = f"<{ctx[0]} {vtext(ctx[1])}>" if ctx else ""
            self.put(f"{name}{c}({args_text(args)})")
        elif k == "ret":
            self.put("return")
        elif k in ("end", "hold", "continue", "break", "break_loop"):
            self.put(k)
        elif k == "label":
            self.put("@" + s[1])
        elif k == "jump":
            self.put("jump @" + s[1])
        elif k == "call":
            self.put("call @" + s[1])
        elif k == "assign":
            self.put(assign_text(s[1:]))
        else:
            raise ValueError(s)

    def cond(self, c):
        self.mark(("cond", c))
        self.put(cond_text(c))

    def stmt(self, s):
        k = s[0]
        self.start()
        if k == "with":
            self.mark(s)
            self.put(f"with ({s[1]} {vtext(s[2])}) {{")
            self.level += 1
            self.start()
            self.simple(s[3])
            self.put(";")
            self.level -= 1
            self.start()
            self.put("}")
        elif k == "if":
            for i, (neg, conds, blk) in enumerate(s[1]):
                if i:
                    self.put(" ")
                self.put(("if" if i == 0 else "elseif") + (" not" if neg else "") + " (")
                for j, c in enumerate(conds):
                    if j:
                        self.put(" || ")
                    self.cond(c)
                self.put(") ")
                self.block(blk)
            if s[2] is not None:
                self.put(" else ")
                self.block(s[2])
        elif k == "switch":
            self.put("switch (")
            self.mark(("header", s[1]))
            self.put(header_text(s[1]) + ") {")
            self.level += 1
            for h, blk in s[2]:
                self.start()
                if h is None:
                    self.put("default:")
                else:
                    self.put("case ")
                    self.mark(("case", h))
                    self.put(case_text(h) + ":")
                self.level += 1
                for x in blk:
                    self.stmt(x)
                self.level -= 1
            self.level -= 1
            self.start()
            self.put("}")
        elif k == "mswitch":
            self.mark(s)
            self.put(f"message_Switch{s[1]} ({vtext(s[2])}) {{")
            self.level += 1
            for h, strv in s[3]:
                self.start()
                if h is None:
                    self.mark(("mdefault", strv))
                    self.put("default: ")
                else:
                    self.mark(("mcase", h, strv))
                    self.put(f"case {vtext(h)}: ")
                self.put(vtext(strv))
            self.level -= 1
            self.start()
            self.put("}")
        elif k == "forever":
            self.put("forever ")
            self.block(s[1])
        elif k == "while":
            self.put("while" + (" not" if s[1] else "") + " (")
            self.cond(s[2])
            self.put(") ")
            self.block(s[3])
        elif k == "for":
            self.put("for (")
            self.simple(s[1])
            self.put("; ")
            self.cond(s[2])
            self.put("; ")
            self.simple(s[3])
            self.put(";) ")
            self.block(s[4])
        elif k == "macro":
            self.mark(s)
            self.put(f"~{s[1]}({args_text(s[2])});")
        else:
            self.simple(s)
            self.put(";")

    def routine(self, r):
        kind, rid, target, cname, body = r
        if self.out:
            self.start()
        if kind == "coro":
            self.put(f"coro {cname} ")
        elif kind == "generic":
            self.put(f"def {rid} ")
        else:
            self.put(f"def {rid} for {kind} {target} ")
        if body == "alias":
            self.put("{ alias previous; }")
        else:
            self.block(body)

    def macro(self, m):
        name, params, body = m
        if self.out:
            self.start()
        self.put(f"macro {name}({', '.join(params)}) ")
        self.block(body)

    def program(self, p):
        """p: dict(imports, macros, routines) or list of routines"""
        if isinstance(p, dict):
            for i in p.get("imports", ()):
                if self.out:
                    self.start()
                self.put(f"import {q(i)};")
            for m in p.get("macros", ()):
                self.macro(m)
            rs = p["routines"]
        else:
            rs = p
        for r in rs:
            self.routine(r)
        self.put("\n")
        return self.text()


def assign_text(a):
    k = a[0]
    if k == "set":
        _, var, op, v, isv = a
        return f"{vtext(var)} {op} " + (f"value({vtext(v)})" if isv else vtext(v))
    if k == "bit":
        return f"{vtext(a[1])}[{vtext(a[2])}] = {vtext(a[3])}"
    if k in ("clear", "init"):
        return f"{k} {vtext(a[1])}"
    if k == "reset":
        return "reset " + ("dungeon_result" if a[1] is None else f"scn({vtext(a[1])})")
    if k == "adv":
        return f"adventure_log = {vtext(a[1])}"
    if k == "dmode":
        return f"dungeon_mode({vtext(a[1])}) = {vtext(a[2])}"
    if k == "scn":
        return f"{vtext(a[1])} = scn[{vtext(a[2])}, {vtext(a[3])}]"
    raise ValueError(a)


def render(p, **kw):
    return Printer(**kw).program(p)


def render1(body, **kw):
    return render([("generic", 0, None, None, body)], **kw)


# ---- meaning ---------------------------------------------------------------------------------------------------
class Meaningless(Exception):
    """The program is statically meaningless per the specification (must be rejected)."""


class Sem:
    """Builds the lts of a program. macros: name -> (params, body)."""

    def __init__(self, macros=None, track=False):
        self.nodes = []
        self.track = track
        self.at = {}  # node -> (role, syntax object, macro call stack)
        self.macros = macros or {}
        self.labels = {}  # (scope, name) -> node
        self.used = []
        self.defined = set()
        self.nscope = 0

    def node(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def tag(self, n, role, obj, env):
        if self.track:
            self.at[n] = (role, obj, env.get("stack", ()))
        return n

    def silent(self, to, s, env):
        """A statement that is only a transfer of control."""
        return self.tag(self.node(("goto", to)), "goto", s, env) if self.track else to

    def op(self, name, params, k):
        from mc.ssb import END_OPS
        lbl = (name, tuple(params))
        if name in END_OPS:
            return self.node(("end", lbl))
        return self.node(("op", lbl, k))

    def in_context(self, n, k):
        """The node n just made for a statement is run in the context of another entity (see mc/lts.py)."""
        node = self.nodes[n]
        if node[0] == "end" and len(node) == 2 and n == len(self.nodes) - 1 and node[1][0] != "JumpCommon":
            self.nodes[n] += (k,)

    def label(self, scope, name):
        key = (scope, name)
        if key not in self.labels:
            self.labels[key] = self.node(("bad", f"undefined label {name}"))
        return self.labels[key]

    # env: dict(scope, subst, brk, cont, brkl, ret)
    def v(self, v, env):
        v = val(v)
        if v[0] == "c" and v[1] in env["subst"]:
            return env["subst"][v[1]]
        return v

    def vs(self, vs, env):
        return tuple(self.v(x, env) for x in vs)

    def block(self, stmts, k, env):
        for s in reversed(stmts):
            k = self.stmt(s, k, env)
        return k

    def cond(self, c, env):
        """(name, params) of the test."""
        kd = c[0]
        if kd == "cmp":
            _, var, op, v, isv = c
            var, v = self.v(var, env), self.v(v, env)
            if isv:
                return ("BranchVariable", (var, I(COND_OPS[op]), v))
            if op == "==":
                return ("Branch", (var, v))
            return ("BranchValue", (var, I(COND_OPS[op]), v))
        if kd == "bit":
            _, neg, var, idx = c
            var, idx = self.v(var, env), val(idx)
            if var == ("c", PPL):
                return ("BranchPerformance", (idx, I(0 if neg else 1)))
            if neg:
                raise Meaningless("not on bit test")
            return ("BranchBit", (var, idx))
        if kd == "kw":
            return (KW[c[2]], (I(0 if c[1] else 1),))
        if kd == "scn":
            if c[2] not in SCN_OPS:
                raise Meaningless("scn operator")
            return (SCN_OPS[c[2]], (self.v(c[1], env), val(c[3]), val(c[4])))
        if kd == "cop":
            return (c[1], self.vs(c[2], env))
        raise ValueError(c)

    def header(self, h, env):
        k = h[0]
        if k == "var":
            return ("Switch", (self.v(h[1], env),))
        if k == "scn":
            return ({0: "SwitchScenario", 1: "SwitchScenarioLevel"}[h[2]], (self.v(h[1], env),))
        if k == "rnd":
            return ("SwitchRandom", (self.v(h[1], env),))
        if k == "dm":
            return ("SwitchDungeonMode", (self.v(h[1], env),))
        if k == "sector":
            return ("SwitchSector", ())
        return (h[1], self.vs(h[2], env))

    def case(self, h, env):
        k = h[0]
        if k == "v":
            return ("Case", (self.v(h[1], env),))
        if k == "cop":
            return ("CaseVariable" if h[3] else "CaseValue", (I(COND_OPS[h[1]]), self.v(h[2], env)))
        if k == "menu":
            return ("CaseMenu", (self.v(h[1], env),))
        return ("CaseMenu2", (self.v(h[1], env),))

    def assign(self, a, env):
        k = a[0]
        if k == "set":
            _, var, op, v, isv = a
            var, v = self.v(var, env), self.v(v, env)
            if isv:
                return ("flag_CalcVariable", (var, I(CALC_OPS[op]), v))
            if op == "=":
                return ("flag_Set", (var, v))
            return ("flag_CalcValue", (var, I(CALC_OPS[op]), v))
        if k == "bit":
            var = self.v(a[1], env)
            if var == ("c", PPL):
                return ("flag_SetPerformance", (val(a[2]), self.v(a[3], env)))
            return ("flag_CalcBit", (var, val(a[2]), self.v(a[3], env)))
        if k == "clear":
            return ("flag_Clear", (self.v(a[1], env),))
        if k == "init":
            return ("flag_Initial", (self.v(a[1], env),))
        if k == "reset":
            return ("flag_ResetDungeonResult", ()) if a[1] is None else ("flag_ResetScenario", (self.v(a[1], env),))
        if k == "adv":
            return ("flag_SetAdventureLog", (self.v(a[1], env),))
        if k == "dmode":
            return ("flag_SetDungeonMode", (self.v(a[1], env), self.v(a[2], env)))
        if k == "scn":
            return ("flag_SetScenario", (self.v(a[1], env), val(a[2]), val(a[3])))
        raise ValueError(a)

    def stmt(self, s, k, env):
        kd = s[0]
        if kd == "op":
            _, name, args, ctx = s
            n = self.tag(self.op(name, self.vs(args, env), k), "stmt", s, env)
            if ctx:
                self.in_context(n, k)
                n = self.tag(self.op(CTX[ctx[0]], (self.v(ctx[1], env),), n), "ctx", s, env)
            return n
        if kd == "ret":
            if env["ret"] is not None:
                return self.silent(env["ret"], s, env)
            return self.tag(self.node(("end", ("Return", ()))), "stmt", s, env)
        if kd == "end":
            return self.tag(self.node(("end", ("End", ()))), "stmt", s, env)
        if kd == "hold":
            return self.tag(self.node(("end", ("Hold", ()))), "stmt", s, env)
        if kd == "break":
            if env["brk"] is None:
                raise Meaningless("break")
            return self.silent(env["brk"], s, env)
        if kd == "continue":
            if env["cont"] is None:
                raise Meaningless("continue")
            return self.silent(env["cont"], s, env)
        if kd == "break_loop":
            if env["brkl"] is None:
                raise Meaningless("break_loop")
            return self.silent(env["brkl"], s, env)
        if kd == "label":
            key = (env["scope"], s[1])
            if key in self.defined:
                raise Meaningless("label defined twice")
            self.defined.add(key)
            n = self.label(*key)
            self.nodes[n] = ("goto", k)
            return n
        if kd == "jump":
            self.used.append((env["scope"], s[1]))
            return self.tag(self.node(("goto", self.label(env["scope"], s[1]))), "goto", s, env)
        if kd == "call":
            self.used.append((env["scope"], s[1]))
            return self.tag(self.node(("test", ("Call", ()), self.label(env["scope"], s[1]), k)), "stmt", s, env)
        if kd == "assign":
            return self.tag(self.op(*self.assign(s[1:], env), k), "stmt", s, env)
        if kd == "with":
            if s[3][0] == "label":
                raise Meaningless("label in with")
            n = self.stmt(s[3], k, env)
            self.in_context(n, k)
            return self.tag(self.op(CTX[s[1]], (self.v(s[2], env),), n), "ctx", s, env)
        if kd == "if":
            nxt = self.block(s[2], k, env) if s[2] is not None else k
            for clause in reversed(s[1]):
                neg, conds, blk = clause
                body = self.block(blk, k, env)
                yes, no = (nxt, body) if neg else (body, nxt)
                for i, c in reversed(list(enumerate(conds))):
                    no = self.tag(self.node(("test", self.cond(c, env), yes, no)), "cond", (c, clause, i), env)
                nxt = no
            return nxt
        if kd == "switch":
            cases = s[2]
            if sum(1 for h, _ in cases if h is None) > 1:
                raise Meaningless("two defaults")
            if cases and not cases[-1][1]:
                raise Meaningless("switch ends in empty case")
            env2 = dict(env, brk=k)
            nxt = k
            bodies = []
            for h, blk in reversed(cases):
                nxt = self.block(blk, nxt, env2)
                bodies.append((h, nxt))
            cur = k
            for h, b in bodies:
                if h is None:
                    cur = b
            for h, b in bodies:  # reversed text order, so the first test ends up first
                if h is not None:
                    cur = self.tag(self.node(("test", self.case(h, env), b, cur)), "case", h, env)
            return self.tag(self.op(*self.header(s[1], env), cur), "header", s, env)
        if kd == "mswitch":
            # the default text comes last wherever it is written, like the default of a switch
            for c in reversed(sorted(s[3], key=lambda x: x[0] is None)):
                h, strv = c
                if h is None:
                    k = self.op("DefaultText", (val(strv),), k)
                else:
                    k = self.op("CaseText", (self.v(h, env), val(strv)), k)
                self.tag(k, "mcase", c, env)
            return self.tag(self.op(f"message_Switch{s[1]}", (self.v(s[2], env),), k), "stmt", s, env)
        if kd == "forever":
            head = self.node(("goto", None))
            env2 = dict(env, cont=head, brkl=k)
            b = self.block(s[1], head, env2)
            self.nodes[head] = ("goto", b)
            return head
        if kd == "while":
            head = self.node(("goto", None))
            env2 = dict(env, cont=head, brkl=k)
            b = self.block(s[3], head, env2)
            yes, no = (k, b) if s[1] else (b, k)
            t = self.tag(self.node(("test", self.cond(s[2], env), yes, no)), "cond", (s[2], s, 0), env)
            self.nodes[head] = ("goto", t)
            return head
        if kd == "for":
            head = self.node(("goto", None))
            step = self.stmt(s[3], head, dict(env, cont=None, brkl=None))
            env2 = dict(env, cont=step, brkl=k)
            b = self.block(s[4], step, env2)
            t = self.tag(self.node(("test", self.cond(s[2], env), b, k)), "cond", (s[2], s, 0), env)
            self.nodes[head] = ("goto", t)
            return self.stmt(s[1], head, env)
        if kd == "macro":
            _, name, args = s
            if name not in self.macros:
                raise Meaningless("unknown macro")
            params, body = self.macros[name]
            if len(args) < len(params):
                raise Meaningless("too few macro arguments")
            self.nscope += 1
            sub = dict(zip(params, self.vs(args, env)))
            env2 = dict(scope=self.nscope, subst=sub, brk=None, cont=None, brkl=None, ret=k, stack=env.get("stack", ()) + ((self.nscope, s, name),))
            return self.block(body, k, env2)
        raise ValueError(s)

    def routine(self, body):
        end = self.node(("end", ("Return", ())))
        if body == "alias":
            return None
        return self.block(body, end, dict(scope=0, subst={}, brk=None, cont=None, brkl=None, ret=None))

    def check_labels(self):
        for key in self.used:
            if key not in self.defined:
                raise Meaningless(f"undefined label {key[1]}")


def meaning(routines, macros=None, track=None):
    """(nodes, entries, infos). routines in any order; result indexed by id. Raises Meaningless."""
    s = Sem({m[0]: (m[1], m[2]) for m in macros} if macros else None, track is not None)
    if track is not None:
        track.append(s.at)
    ents = {}
    infos = {}
    nxt = 0
    for kind, rid, target, cname, body in routines:
        if kind == "coro":
            rid = nxt
        nxt = rid + 1
        ents[rid] = s.routine(body)
        t = target
        infos[rid] = (kind, t if kind in ("actor", "object", "performer") else None, cname if kind == "coro" else None)
    s.check_labels()
    n = max(ents) + 1 if ents else 0
    return s.nodes, [ents.get(i) for i in range(n)], tuple(infos.get(i) for i in range(n))


def silent_cycle(nodes, starts):
    """Is there a reachable op-free cycle (a cycle of gotos only)?"""
    from mc.lts import reachable, resolve

    return any(resolve(nodes, i)[1][0] == "div" for i in reachable(nodes, [x for x in starts if x is not None]))
