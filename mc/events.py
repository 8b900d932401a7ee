"""The calls histories and schedules are made of: compile/decompile calls with fresh or reused objects, their outcomes."""
from __future__ import annotations

import os
import shutil
import tempfile

from mc.src import C, I

G = ("generic", None, None)
RET = ("Return", (), None)
LIB1 = "macro m($a) { lib1($a); }\nmacro k() { k1(Position<'lp', 1, 2.5>); ~m(7); }"
LIB2 = "macro m($a) { lib2($a); other(); }\nmacro k() { return; }"
# name -> (files, main, performance progress variable)
COMPILES = {}


def t(name, text, files=(), ppl="$PERFORMANCE_PROGRESS_LIST", main="p/main.exps", macros_only=False, rel=False):
    COMPILES[name] = (dict(files) | {main: text}, main, ppl, macros_only, rel)


t("end", "def 0 { end; }")
t("one", "def 0 { a(1); }")
t("two", "def 0 { a(2); }")
t("if", "def 0 { if ($A == 1 || $B < 2) { a(1); } elseif not (debug) { b(); } else { c(); } d(); }")
t("loops", "def 0 { forever { a(); if ($A == 1) { break_loop; } while ($B > 3) { b(); continue; } } for ($C = 1; $C < 3; $C += 1;) { c(); } }")
t("switch", "def 0 { switch ($A) { case 1: case 2: a(); break; default: b(); case menu('x'): c(); } message_SwitchTalk ($B) { case 1: 'x' default: 'y' } }")
t("labels", "def 0 { @a; b(); jump @a; }\ndef 1 { call @c; jump @a; @c; d(); return; }")
t("nolabel", "def 0 { b(); jump @a; }")
t("macro1", "macro m($a) { x($a); if ($a == 1) { return; } y(Position<'pm', 1.5, 2>); }\ndef 0 { ~m(1); ~m(2); }")
t("macro2", "macro m($a) { z($a); }\nmacro n() { ~m(3); ~m(4); }\ndef 0 { ~n(); ~m('s'); }")
t("nomacro", "def 0 { ~m(1); }")
t("nomacro2", "macro n() { ~m(1); }\ndef 0 { ~n(); }")
t("cycle", "macro m($a) { ~n(); }\nmacro n() { ~m(1); }\ndef 0 { ~n(); }")
t("lib1", "import './lib.exps';\ndef 0 { ~m(1); ~k(); }", {"p/lib.exps": LIB1})
t("lib2", "import './lib.exps';\ndef 0 { ~m(1); ~k(); }", {"p/lib.exps": LIB2})
t("nolib", "import './lib.exps';\ndef 0 { ~m(1); ~k(); }")
t("libs", "import '../q/lib.exps';\nmacro own($x) { ~m($x); }\ndef 0 { ~own(1); ~k(); }", {"q/lib.exps": "import './sub.exps';\nmacro k() { ~m(8); }", "q/sub.exps": LIB1.split("\n")[0]})
t("libs2", "import '../q/lib.exps';\nmacro own($x) { ~m($x); }\ndef 0 { ~own(1); ~k(); }", {"q/lib.exps": "import './sub.exps';\nmacro k() { ~m(8); }", "q/sub.exps": LIB2.split("\n")[0]})  # only the imported import differs
t("badlib", "import './lib.exps';\ndef 0 { ~m(1); }", {"p/lib.exps": "def 0 { end; }"})
t("selflib", "import './a.exps';\ndef 0 { x(); }", {"p/a.exps": "import './b.exps'; macro m($a) { x(); }", "p/b.exps": "import './a.exps'; macro n($a) { x(); }"})
t("lookup", "import 'lk.exps';\ndef 0 { ~m(1); }", {"look/lk.exps": LIB2})
t("coros", "coro A { a(); }\ncoro B alias previous;\ncoro C { c(); hold; }")
t("targets", "def 0 { x(); }\ndef 1 for_actor(3) { y(); }\ndef 2 for_object(OBJ) { z(); jump @l; @l; }\ndef 3 for_performer(PERF) alias previous;")
t("strings", "def 0 { a('it\\'s', {english='e', french=\"\"\"f\n  g\n h\"\"\"}, Position<'n', 3, 4.5>, 0x10, -1.50, C, $V); }")
t("ssbs", "//?: is-ssb-script: true\ndef 0 {\n a(1);\n §l;\n jump(@l);\n}".replace("§l;", "@l;").replace("jump(@l)", "b(2)"))
t("parse", "def 0 { a( }")
t("parse2", "def 0 { a(); } }")
t("midway", "def 0 { a(); forever { if ($A == 1) { ~nope(); } } }")
t("midmacro", "macro m($a) { forever { switch ($a) { case 1: ~nope(); } } }\ndef 0 { a(); }")
t("breakloop", "def 0 { break_loop; }")
t("breakcase", "def 0 { break; }")
t("gap", "def 0 { a(); }\ndef 2 { b(); }")
t("onlymacros", "macro m($a) { x(); }")
t("ppl1", "def 0 { if ($P[3]) { a(); } $P[2] = 1; }", ppl="$P")
t("ppl2", "def 0 { if ($P[3]) { a(); } $P[2] = 1; }", ppl="$Q")

t("aslib", LIB1, main="p/lib.exps", macros_only=True)
t("aslib2", LIB2 + "\ndef 0 { ~m(2); ~k(); }", main="p/lib.exps")
t("asself", "macro m($a) { x(); }\ndef 0 { import_me(); }", main="p/a.exps")
t("asmid", "import './sub.exps';\nmacro k() { ~m(8); }", {"q/sub.exps": LIB1.split("\n")[0]}, main="q/lib.exps", macros_only=True)
t("rel", "import './lib.exps';\nimport '../q/sub.exps';\ndef 0 { ~k(); ~s(); }", {"p/lib.exps": LIB2, "q/sub.exps": "macro s() { s(); }"}, rel=True)

DECOMPILES = {
    "simple": ((G,), ((("a", (I(1),), None), RET),)),
    "simple2": ((G,), ((("a", (I(2),), None), RET),)),
    "if": ((G,), ((("Branch", (C("$V"), I(1)), (0, 3)), ("b", (), None), ("Jump", (), (0, 4)), ("c", (), None), RET),)),
    "if2": ((G,), ((("Branch", (C("$W"), I(2)), (0, 3)), ("b", (), None), ("Jump", (), (0, 4)), ("d", (), None), ("End", (), None)),)),
    "loop": ((G,), ((("a", (), None), ("Branch", (C("$V"), I(1)), (0, 4)), ("b", (), None), ("Jump", (), (0, 0)), ("c", (), None), RET),)),
    "loops": ((G,), ((("a", (), None), ("Branch", (C("$V"), I(1)), (0, 6)), ("b", (), None), ("Branch", (C("$V"), I(2)), (0, 2)), ("Branch", (C("$V"), I(3)), (0, 6)), ("Jump", (), (0, 0)), ("c", (), None), RET),)),
    "switch": ((G,), ((("Switch", (C("$S"),), None), ("Case", (I(1),), (0, 4)), ("Case", (I(2),), (0, 5)), ("Jump", (), (0, 6)), ("a", (), None), ("b", (), None), RET),)),
    "texts": ((G,), ((("a", (("s", "it's\nso"),), None), ("Branch", (C("$V"), I(1)), (0, 4)), ("b", (("s", "x\n y"), ("l", (("english", "e\n f"), ("french", "g")))), None), ("Jump", (), (0, 0)), RET),)),
    "talk": ((G,), ((("message_SwitchTalk", (C("$S"),), None), ("CaseText", (I(1), ("s", "a\nb")), None), ("DefaultText", (("s", "c"),), None), RET),)),
    "coros": ((("coro", None, "A"), ("coro", None, "B")), ((("a", (), None), RET), (("b", (), None), ("Hold", (), None)))),
    "coros2": ((("coro", None, "X"), ("coro", None, "Y")), ((("a", (), None), RET), (("b", (), None), ("Hold", (), None)))),
    "targets": ((("actor", 5, None), ("object", "OBJ", None), ("performer", 1, None)), ((("a", (), None), RET), (), (("b", (), None), RET))),
    "marks": ((G,), ((("a", (("p", "m", 2, 0, 1, 3), ("f", "1.5"), I(7)), None), RET),)),
    "cross": ((G, G), ((("a", (), None), ("Jump", (), (1, 1))), (("Call", (), (0, 0)), ("c", (), None), RET))),
    "fallback": ((G,), ((("a", (("s", "x\ny"),), None), ("Case", (I(1),), (0, 0)), ("b", (), None), RET),)),
    "open": ((G,), ((("Branch", (C("$V"), I(1)), (0, 0)), ("b", (), None)),)),
    "dmode": ((G,), ((("flag_SetDungeonMode", (I(3), I(1)), None), ("SwitchDungeonMode", (I(3),), None), ("Case", (I(2),), (0, 4)), ("a", (), None), RET),)),
    "flags": ((G,), ((("flag_CalcBit", (C("$V"), I(1), I(1)), None), ("flag_SetPerformance", (I(4), I(1)), None), ("lives", (C("ACTOR"),), None), ("b", (), None), RET),)),
    "bad": ((G,), ((("Branch", (C("$V"),), (0, 0)), ("b", (), None), RET),)),
}


def _j(name, *params, **kw):
    return {"opcode": name, "params": list(params), **kw}


CLIS = {
    "plain": [{"type": "GENERIC", "ops": [_j("a", 1), _j("Return")]}],
    "jump": [{"type": "GENERIC", "ops": [_j("Branch", {"type": "CONSTANT", "value": "$V"}, 1, 4), _j("b"), _j("Jump", 1), _j("Return")]}, {"type": "COROUTINE", "name": "K", "ops": [_j("x"), _j("Jump", 5)]}],
    "badtype": [{"type": "GENERIC", "ops": [_j("a", {"type": "CONST_STRING", "value": "s"}), _j("Return")]}, {"type": "NONE", "ops": [_j("a")]}],
}
SSBS_TEXTS = {
    "ok": "def 0 {\n    a(1, 'x', Position<'m', 1, 2>);\n    Jump(@l);\n    @l;\n    b();\n}\n",
    "ok2": "def 0 {\n    a(2);\n    @l;\n    Jump(@l);\n}\n",
    "nolabel": "def 0 {\n    a(1);\n    Jump(@l);\n}\n",
    "coro": "coro A {\n    a(1);\n}\ncoro B {\n    b(1);\n}\n",
    "parse": "def 0 {\n    a(1\n}\n",
}


OTHERS = ("dmode", "flags", "if")  # decompiled with other names for the special constants


def all_events():
    ev = []
    for n in COMPILES:
        ev.append(("compile", n))
        if not n.startswith("ppl"):
            ev.append(("reuse", n))
    for n in DECOMPILES:
        ev.append(("decompile", n))
        ev.append(("same-objects", n))
        ev.append(("same-decompiler", n))
    for n in OTHERS:
        ev.append(("decompile-other", n))
    for n in ("simple", "texts", "loop", "cross", "coros"):
        ev.append(("ssbs-decompile", n))
        ev.append(("ssbs-same-objects", n))
    for n in SSBS_TEXTS:
        ev.append(("ssbs-compile", n))
        ev.append(("ssbs-reuse", n))
    for n in CLIS:
        ev.append(("cli", n))
    return ev


CORE = [
    ("compile", "macro1"), ("reuse", "macro2"), ("reuse", "nomacro"), ("reuse", "cycle"), ("reuse", "lib1"), ("compile", "lib2"), ("reuse", "aslib"), ("reuse", "rel"),
    ("reuse", "midway"), ("reuse", "breakloop"), ("compile", "parse"), ("reuse", "labels"), ("compile", "switch"), ("reuse", "coros"),
    ("same-objects", "texts"), ("decompile", "loop"), ("same-decompiler", "loops"), ("decompile", "switch"), ("decompile", "fallback"),
    ("same-objects", "coros"), ("decompile", "coros2"), ("cli", "jump"),
]


def ops_of(rops):
    from mc import ssb

    return [[(op.offset, op.op_code.name, [ssb.norm(p) for p in op.params]) for op in r] for r in rops]


def infos_of(infos):
    return [None if i is None else (str(i.type), i.linked_to, i.linked_to_name) for i in infos]


def coros_of(cs):
    return [c if isinstance(c, (str, type(None))) else getattr(c, "__dict__", repr(c)) for c in cs]


class World:
    """What a process keeps from call to call: reused compilers and decompilers, the callers' routine sets, files."""

    def __init__(self, base):
        self.base = base
        self.compiler = None
        self.ssbs_compiler = None
        self.sets = {}
        self.decompilers = {}
        self.altered = []

    def objects(self):
        yield "compiler", self.compiler
        yield "ssbs_compiler", self.ssbs_compiler
        for n, (d, objs) in self.decompilers.items():
            yield ("decompiler", n), (d, objs)
        for n, objs in self.sets.items():
            if not any(o is objs for _, o in self.decompilers.values()):
                yield ("set", n), objs

    def norm(self, s):
        return s.replace(os.path.relpath(self.base), "@REL@").replace(self.base, "@ROOT@").replace(os.path.realpath(self.base), "@ROOT@")

    def write(self, files):
        """exactly these files exist"""
        for d in ("p", "q", "look"):
            shutil.rmtree(os.path.join(self.base, d), ignore_errors=True)
        for p, text in files.items():
            full = os.path.join(self.base, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as f:
                f.write(text)

    def run(self, ev):
        try:
            return self.norm(repr(self._run(*ev)))
        except Exception as e:
            return self.norm(f"{type(e).__module__}.{type(e).__name__}: {e}")

    def compile_outcome(self, c):
        return (
            ops_of(c.routine_ops) if c.routine_ops is not None else None,
            infos_of(c.routine_infos) if c.routine_infos is not None else None,
            coros_of(c.named_coroutines) if c.named_coroutines is not None else None,
            c.source_map.serialize() if c.source_map is not None else None,
            c.imports, {n: (m.variables, len(m.blueprints), m.included__absolute_path, m.included__relative_path) for n, m in c.macros.items()},
        )

    def _run(self, kind, n):
        from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
        from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
        from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
        from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
        from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

        from mc import ssb

        if kind in ("compile", "reuse"):
            files, main, ppl, macros_only, rel = COMPILES[n]
            self.write(files)
            look = [os.path.join(self.base, "look")]
            if kind == "compile":
                c = ExplorerScriptSsbCompiler(ppl, look)
            else:
                if self.compiler is None:
                    self.compiler = ExplorerScriptSsbCompiler(ppl, look)
                c = self.compiler
            path = os.path.join(self.base, main)
            c.compile(files[main], os.path.relpath(path) if rel else path, macros_only)
            return self.compile_outcome(c)
        if kind in ("ssbs-compile", "ssbs-reuse"):
            if kind == "ssbs-compile":
                c = SsbScriptSsbCompiler()
            else:
                if self.ssbs_compiler is None:
                    self.ssbs_compiler = SsbScriptSsbCompiler()
                c = self.ssbs_compiler
            c.compile(SSBS_TEXTS[n])
            return ops_of(c.routine_ops), infos_of(c.routine_infos), coros_of(c.named_coroutines), c.source_map.serialize()
        if kind == "cli":
            import copy

            from explorerscript.cli.decompile import read_routines

            infos, coros, rops = read_routines(copy.deepcopy(CLIS[n]))
        elif kind in ("decompile", "decompile-other", "ssbs-decompile"):
            infos, rops, coros = ssb.build(DECOMPILES[n])
        elif kind == "same-decompiler" and n in self.decompilers:
            infos, rops, coros = self.decompilers[n][1]
        else:
            k = kind.split("-")[-1], n
            if k not in self.sets:
                self.sets[k] = ssb.build(DECOMPILES[n])
            infos, rops, coros = self.sets[k]
        before = repr((ops_of(rops), infos_of(infos), coros_of(coros)))
        if kind.startswith("ssbs"):
            d = SsbScriptSsbDecompiler(infos, rops, coros)
        elif kind == "same-decompiler" and n in self.decompilers:
            d = self.decompilers[n][0]
        elif kind == "decompile-other":
            d = ExplorerScriptSsbDecompiler(infos, rops, coros, "$V", DungeonModeConstants("OTHER_A", "OTHER_B", "OTHER_C", "OTHER_D"))
        else:
            d = ExplorerScriptSsbDecompiler(infos, rops, coros, ssb.PPL, DungeonModeConstants(*ssb.DMODES))
            if kind == "same-decompiler":
                self.decompilers[n] = (d, (infos, rops, coros))
        try:
            text, sm = d.convert()
            return text, sm.serialize()
        finally:
            after = repr((ops_of(rops), infos_of(infos), coros_of(coros)))
            if before != after:
                self.altered.append((kind, n, before, after))


class TempWorld:
    def __enter__(self):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="verif-w-"))
        return World(self.base)

    def __exit__(self, *a):
        shutil.rmtree(self.base, ignore_errors=True)
