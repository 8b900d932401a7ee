"""C15: the compile CLI prints what the decompile CLI (and the docs) expect.

Every case runs the real command modules (as __main__, own argv, captured stdout) on real files; the JSON is read as a
routine set by this check's own reader of the documented format.
"""
from __future__ import annotations

import importlib.util
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
from itertools import product

from mc import deep, forms, gen, macros, runner, src, ssb
from mc.checks.c05 import scratch
from mc.lts import compare

PROPERTY = "C15"

SETTINGS = {
    "performance_progress_list_var_name": ssb.PPL,
    "dungeon_mode_constants": {"open": ssb.DMODES[1], "closed": ssb.DMODES[0], "request": ssb.DMODES[2], "open_request": ssb.DMODES[3]},
}
_code = {}


def cli(module, argv):
    """(exit status, stdout, error) of python -m explorerscript.cli.<module> argv, run in this process."""
    name = f"explorerscript.cli.{module}"
    if name not in _code:
        spec = importlib.util.find_spec(name)
        _code[name] = (spec.loader.get_code(name), spec.origin)
    code, path = _code[name]
    out = io.StringIO()
    old = sys.argv, sys.stdout
    sys.argv, sys.stdout = [path] + argv, out
    err = None
    status = 0
    try:
        exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__, "__package__": "explorerscript.cli", "__spec__": None})
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        err = "exit"
    except Exception as e:
        status = 1
        err = f"{type(e).__name__}: {e}"
    finally:
        sys.argv, sys.stdout = old
    return status, out.getvalue(), err


def cli_process(module, argv, cwd=None):
    env = dict(os.environ)
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", f"explorerscript.cli.{module}"] + argv, capture_output=True, text=True, env=env, cwd=cwd)
    return p.returncode, p.stdout, p.stderr


# ---- reader of the documented JSON structure -------------------------------------------------------------------
class BadJson(Exception):
    pass


def need(c, what):
    if not c:
        raise BadJson(what)


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def read_param(p):
    if is_int(p):
        return ("i", p)
    need(isinstance(p, dict) and set(p) == {"type", "value"}, f"parameter {p!r}")
    t, v = p["type"], p["value"]
    if t == "FIXED_POINT":
        need(isinstance(v, str), f"fixed point {v!r}")
        return ("f", ssb.fixed_norm(v))
    if t == "CONSTANT":
        need(isinstance(v, str), f"constant {v!r}")
        return ("c", v)
    if t == "CONST_STRING":
        need(isinstance(v, str), f"string {v!r}")
        return ("s", v)
    if t == "LANG_STRING":
        need(isinstance(v, dict) and all(isinstance(x, str) for kv in v.items() for x in kv), f"language string {v!r}")
        return ("l", tuple(sorted(v.items())))
    if t == "POSITION_MARK":
        need(isinstance(v, dict) and set(v) == {"name", "x", "y"} and isinstance(v["name"], str), f"position mark {v!r}")

        def coord(c):
            need(not isinstance(c, bool) and isinstance(c, (int, float, str)), f"coordinate {c!r}")
            c = str(c)
            whole, dot, fract = c.partition(".")
            need(fract in ("", "5", "0"), f"coordinate {c!r}")
            try:
                return int(whole), 2 if fract == "5" else 0
            except ValueError:
                raise BadJson(f"coordinate {c!r}")

        (x, xo), (y, yo) = coord(v["x"]), coord(v["y"])
        return ("p", v["name"], xo, yo, x, y)
    raise BadJson(f"parameter type {t!r}")


def read_json(d):
    """Canonical routine set of a documented JSON structure."""
    need(isinstance(d, dict) and set(d) == {"settings", "routines"}, "top level")
    need(isinstance(d["routines"], list), "routines")
    pos = {}
    n = 1
    for ri, r in enumerate(d["routines"]):
        need(isinstance(r, dict) and isinstance(r.get("ops"), list), f"routine {r!r}")
        for oi in range(len(r["ops"])):
            pos[n] = (ri, oi)
            n += 1
    infos, ops = [], []
    for r in d["routines"]:
        t = r.get("type")
        if t == "COROUTINE":
            need(set(r) == {"type", "name", "ops"} and isinstance(r["name"], str), "coroutine fields")
            infos.append(("coro", None, r["name"]))
        elif t == "GENERIC":
            need(set(r) == {"type", "ops"}, "generic routine fields")
            infos.append(("generic", None, None))
        elif t in ("ACTOR", "OBJECT", "PERFORMER"):
            need(set(r) == {"type", "target_id", "ops"} and (is_int(r["target_id"]) or isinstance(r["target_id"], str)), f"targeted routine fields {r.get('target_id')!r}")
            infos.append((t.lower(), r["target_id"], None))
        else:
            raise BadJson(f"routine type {t!r}")
        lst = []
        for op in r["ops"]:
            need(isinstance(op, dict) and set(op) == {"opcode", "params"} and isinstance(op["opcode"], str) and isinstance(op["params"], list), f"op {op!r}")
            ps = [read_param(p) for p in op["params"]]
            tgt = None
            if op["opcode"] in ssb.JUMP_OPS:
                need(ps and ps[-1][0] == "i" and ps[-1][1] in pos, f"jump parameter of {op!r} is no position of an op")
                tgt = pos[ps.pop()[1]]
            lst.append((op["opcode"], tuple(ps), tgt))
        ops.append(tuple(lst))
    return tuple(infos), tuple(ops)


def write_json(rset, settings=SETTINGS, mark_numbers=False, target_dict=False):
    """A documented JSON structure for a canonical routine set."""
    infos, ops = rset
    n = 1
    pos = {}
    for ri, r in enumerate(ops):
        for oi in range(len(r)):
            pos[(ri, oi)] = n
            n += 1

    def num(rel, off):
        if mark_numbers:
            return rel if off <= 1 else rel + 0.5
        return f"{rel}" + (".5" if off > 1 else "")

    def param(v):
        k = v[0]
        if k == "i":
            return v[1]
        if k == "f":
            return {"type": "FIXED_POINT", "value": v[1]}
        if k == "c":
            return {"type": "CONSTANT", "value": v[1]}
        if k == "s":
            return {"type": "CONST_STRING", "value": v[1]}
        if k == "l":
            return {"type": "LANG_STRING", "value": dict(v[1])}
        return {"type": "POSITION_MARK", "value": {"name": v[1], "x": num(v[4], v[2]), "y": num(v[5], v[3])}}

    rs = []
    for (kind, target, cname), r in zip(infos, ops):
        j = {"type": {"coro": "COROUTINE"}.get(kind, kind.upper())}
        if kind == "coro":
            j["name"] = cname
        elif kind != "generic":
            j["target_id"] = {"type": "CONSTANT", "value": target} if target_dict and isinstance(target, str) else target
        j["ops"] = [{"opcode": nm, "params": [param(p) for p in ps] + ([pos[tuple(t)]] if t else [])} for nm, ps, t in r]
        rs.append(j)
    return {"settings": settings, "routines": rs}


class Work:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=scratch())
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def put(self, name, content):
        p = os.path.join(self.d, name)
        with open(p, "w", encoding="utf-8", errors="surrogatepass") as f:
            f.write(content if isinstance(content, str) else json.dumps(content))
        return p


def run_program(case, rec):
    """compile CLI -> JSON == API result; decompile CLI -> text; text behaves like the source."""
    prog, behave = case
    text = prog if isinstance(prog, str) else src.render(prog)
    if not rec.samples:
        rec.sample(text)
    key = text
    try:
        c = ssb.compile_text(text)
        want = ssb.canon_compiled(c)
        complete = all(i is not None for i in c.routine_infos)
    except Exception as e:
        c, complete = None, False
    with Work() as w:
        st = w.put("settings.json", {"settings": SETTINGS})
        status, out, err = cli("compile", [w.put("main.exps", text), "--settings", st])
        if c is None or not complete:
            rec.outcome("compile fails")
            if status == 0:
                rec.violation("exit-status", key, f"compiling fails, yet the command exits with 0: {out[:200]}")
            return
        if status != 0:
            rec.violation("exit-status", key, f"compiling succeeds, yet the command exits with {status}: {err}")
            return
        rec.trace()
        try:
            d = json.loads(out)
            got = read_json(d)
            need(d["settings"] == SETTINGS, "settings")
        except (BadJson, ValueError) as e:
            rec.violation("json", key, f"{type(e).__name__}: {e}\n{out[:500]}")
            return
        rec.states(sum(map(len, got[1])))
        if got != want:
            rec.violation("json", key, f"the JSON says\n{got[0]}\n{ssb.show_ops(got[1])}\nbut the program is\n{want[0]}\n{ssb.show_ops(want[1])}")
            return
        status, out2, err = cli("decompile", [w.put("ssb.json", out)])
        odd = sorted({f"{nm}/{len(ps)}" for r in want[1] for nm, ps, t in r if t and nm in ssb.SHAPES and len(ps) != len(ssb.SHAPES[nm])})
        if status != 0 and odd:
            # no binary op has that many parameters
            rec.violation("number-of-params", " ".join(odd), f"the decompile command exits with {status}: {err}\n{text}")
            return
        if status != 0:
            rec.violation("decompile", key, f"the decompile command exits with {status}: {err}\n{out[:500]}")
            return
        judge_decompiled(want, out2, rec, key)
        if behave and not isinstance(prog, str) and ssb.proper(want[1]):
            nodes, ents, infos = src.meaning(prog["routines"] if isinstance(prog, dict) else prog, prog.get("macros") if isinstance(prog, dict) else None)
            judge_behaviour(nodes, ents, infos, out2, rec, key)


def judge_decompiled(rset, out, rec, key):
    """The text printed must be the decompilation of exactly this routine set (or compile to the same ops)."""
    text, sm = ssb.decompile(rset)
    if out.rstrip("\n") == text.rstrip("\n"):
        return
    try:
        same = ssb.canon_compiled(ssb.compile_text(out)) == ssb.canon_compiled(ssb.compile_text(text))
    except Exception:
        same = False
    if not same:
        rec.violation("decompile", key, f"printed\n{out}\nexpected\n{text}")


def judge_behaviour(nodes, ents, infos, text, rec, key):
    try:
        c = ssb.compile_text(text)
        cinfos, cops = ssb.canon_compiled(c)
    except Exception as e:
        rec.violation("round-trip", key, f"{type(e).__name__}: {e}\n{text}")
        return
    if cinfos != infos:
        rec.violation("round-trip", key, f"{cinfos} instead of {infos}\n{text}")
        return
    m, base = ssb.machine(cops)
    for i, e in enumerate(ents):
        if e is None:
            continue
        wit = compare(nodes, e, m, base[i], rec)
        if wit:
            rec.violation("round-trip", key, f"routine {i}: {wit}\n{text}")
            return


def run_json(case, rec):
    rset, numbers, tdict = case
    if not rec.samples:
        rec.sample(repr(rset))
    with Work() as w:
        d = write_json(rset, mark_numbers=numbers, target_dict=tdict)
        status, out, err = cli("decompile", [w.put("ssb.json", d)])
        key = json.dumps(d)
        rec.trace()
        if status != 0:
            rec.violation("decompile", key, f"exit status {status}: {err}")
            return
        judge_decompiled(rset, out, rec, key)
        try:
            c = ssb.compile_text(out)
            got = ssb.canon_compiled(c)
        except Exception as e:
            rec.violation("round-trip", key, f"{type(e).__name__}: {e}\n{out}")
            return
        rec.states(sum(map(len, got[1])))
        if got != rset:
            rec.violation("round-trip", key, f"{got}\ninstead of {rset}\n{out}")


def json_cases():
    args = [forms.ARGS[i] for i in range(len(forms.ARGS))] + [("f", "-0.25"), ("f", "10.0"), ("p", "a b", 2, 0, 0, 200), ("p", "c", 0, 0, 10, 3), ("p", "d", 2, 2, 7, 8), ("i", -32768), ("s", ""), ("l", (("english", ""),))]
    kinds = [("generic", None, None), ("coro", None, "CORO_X")]
    for k, t in product(("actor", "object", "performer"), (0, 1, 5, 300, "ACTOR_A", "OBJECT_D01P11B2_12")):
        kinds.append((k, t, None))
    ret = ("Return", (), None)
    for k in kinds:
        for a in args:
            r = (("foo", (a,), None), ret)
            for num in (False, True):
                if num and a[0] != "p":
                    continue
                yield ((k,), (r,)), num, False
        if isinstance(k[1], str):
            yield ((k,), ((ret,),)), False, True
    for a, b in product(args, repeat=2):
        yield ((kinds[0],), ((("foo", (a, b), None), ret),)), False, False
    # routine lists: kinds x kinds (x kinds), empty (alias) routines, op names that stay apart
    for n in (2, 3):
        ks = kinds if n == 2 else kinds[:5]
        for combo in product(ks, repeat=n):
            if len({k[0] == "coro" for k in combo}) > 1 and any(k[0] == "coro" for k in combo):
                continue
            combo = tuple((k[0], k[1], f"CORO_{i}" if k[0] == "coro" else None) for i, k in enumerate(combo))
            yield (combo, tuple(((f"op{i}", (("i", i),), None), ret) for i in range(n))), False, False


def fail_cases():
    good = {"settings": SETTINGS, "routines": [{"type": "GENERIC", "ops": [{"opcode": "Return", "params": []}]}]}
    ok_src = "def 0 { end; }"
    yield "compile", ok_src, {"settings": SETTINGS}, True
    yield "compile", ok_src, {"settings": SETTINGS, "routines": []}, True
    for s in ("", "def 0 {", "def 0 { break; }", "def 0 { jump @a; }", "~", "def 0 { ~m(); }", 'import "./nope.exps"; def 0 {end;}', "def 0 { foo(Position<'a', 1.3, 2>); }", "def 0 { switch ($X) { case 1: } }"):
        yield "compile", s, {"settings": SETTINGS}, s == ""
    for k in ("performance_progress_list_var_name", "dungeon_mode_constants"):
        yield "compile", ok_src, {"settings": {a: b for a, b in SETTINGS.items() if a != k}}, False
        yield "decompile", {**good, "settings": {a: b for a, b in SETTINGS.items() if a != k}}, None, False
    for k in SETTINGS["dungeon_mode_constants"]:
        dm = {a: b for a, b in SETTINGS["dungeon_mode_constants"].items() if a != k}
        yield "compile", ok_src, {"settings": {**SETTINGS, "dungeon_mode_constants": dm}}, False
        yield "decompile", {**good, "settings": {**SETTINGS, "dungeon_mode_constants": dm}}, None, False
    yield "compile", ok_src, {}, False
    yield "compile", ok_src, "{", False
    yield "compile", ok_src, None, False
    yield "compile", None, {"settings": SETTINGS}, False
    yield "decompile", good, None, True
    yield "decompile", {**good, "routines": []}, None, True
    yield "decompile", None, None, False
    yield "decompile", "{", None, False
    yield "decompile", {"settings": SETTINGS}, None, False
    yield "decompile", {"routines": good["routines"]}, None, False

    def r(**kw):
        return {"settings": SETTINGS, "routines": [kw]}

    op = {"opcode": "Return", "params": []}
    for bad in (r(type="GENERIC"), r(ops=[op]), r(type="FOO", ops=[op]), r(type="COROUTINE", ops=[op]), r(type="ACTOR", ops=[op]), r(type="OBJECT", ops=[op]), r(type="PERFORMER", ops=[op]),
                r(type="GENERIC", ops=[{"opcode": "x"}]), r(type="GENERIC", ops=[{"params": []}]), r(type="GENERIC", ops=[{"opcode": "x", "params": ["s"]}]), r(type="GENERIC", ops=[{"opcode": "x", "params": [{"type": "X", "value": 1}]}]),
                r(type="GENERIC", ops=[{"opcode": "x", "params": [{"type": "CONSTANT"}]}]), r(type="GENERIC", ops=[{"opcode": "x", "params": [{"value": "a"}]}]), r(type="GENERIC", ops=[{"opcode": "x", "params": [1.5]}]),
                r(type="GENERIC", ops=[{"opcode": "x", "params": [{"type": "POSITION_MARK", "value": {"name": "a", "x": "1.3", "y": "1"}}]}]),
                r(type="GENERIC", ops=[{"opcode": "x", "params": [{"type": "POSITION_MARK", "value": {"name": "a", "x": "1"}}]}]),
                r(type="GENERIC", ops=[{"opcode": "x", "params": [{"type": "FIXED_POINT", "value": "abc"}]}])):
        yield "decompile", bad, None, False


def run_fail(case, rec):
    cmd, a, b, ok = case
    with Work() as w:
        f = w.put("main.exps" if cmd == "compile" else "ssb.json", a) if a is not None else os.path.join(w.d, "missing")
        argv = [f]
        if cmd == "compile":
            argv += ["--settings", w.put("settings.json", b) if b is not None else os.path.join(w.d, "missing2")]
        st, out, err = cli_process(cmd, argv)
        st2, out2, err2 = cli(cmd, argv)
        rec.trace(2)
        rec.states(1)
        rec.outcome("ok" if ok else "must fail")
        if (st == 0) != ok or (st2 == 0) != ok:
            rec.violation("exit-status", repr(case), f"exit status {st}/{st2}, success: {ok}\n{err}")
        elif ok and out != out2:
            rec.violation("harness", repr(case), f"process and in-process output differ: {out!r} {out2!r}")


def run_lookup(case, rec):
    """--lookup given once with several paths, or several times; relative to the working directory."""
    order, style, where = case
    with Work() as w:
        for d in ("l1", "l2", "proj"):
            os.makedirs(os.path.join(w.d, d))
        for d in where:
            w.put(f"{d}/mac.exps", f"macro m() {{ from_{d}(); }}")
        main = w.put("proj/main.exps", 'import "mac.exps"; def 0 { ~m(); end; }')
        st = w.put("settings.json", {"settings": SETTINGS})
        argv = [os.path.relpath(main, w.d), "--settings", st]
        ps = [d if style[1] == "rel" else os.path.join(w.d, d) for d in order]
        if style[0] == "one":
            argv += ["--lookup"] + ps if ps else []
        else:
            for p in ps:
                argv += ["--lookup", p]
        st, out, err = cli_process("compile", argv, cwd=w.d)
        rec.trace()
        rec.states(1)
        first = next((d for d in order if d in where), None)
        if (st == 0) != (first is not None):
            rec.violation("exit-status", repr(case), f"exit status {st}: {err}")
        elif st == 0 and json.loads(out)["routines"][0]["ops"][0]["opcode"] != f"from_{first}":
            rec.violation("json", repr(case), out)


def lookup_cases():
    for order in ((), ("l1",), ("l2",), ("l1", "l2"), ("l2", "l1")):
        for style in product(("one", "many"), ("rel", "abs")):
            for where in (("l1",), ("l2",), ("l1", "l2"), ()):
                yield order, style, where


def programs(n):
    for s in forms.simple_statements():
        yield (((("generic", 0, None, None, (forms.o(1), s, forms.o(2))),), True))
    for b in gen.bodies("or2inExsdfwF", n, (), 3):
        yield ((("generic", 0, None, None, gen.number(b)),), False)
    for k in range(1, n + 1):
        for b in gen.bodies("orlcjinxsdfwM", k, ("a",), 3):
            yield ((("generic", 0, None, None, gen.number(b)),), False)
    for k in (1, 2):
        for p in forms.routine_programs(k):
            yield (p, False)
    for ms, rs in macros.body_programs("oris", (), 2):
        yield ({"macros": ms, "routines": rs}, False)


def many(n):
    for b in deep.wide(n):
        yield (("generic", 0, None, None, b),), True
    for b in deep.many_labels(n):
        yield (("generic", 0, None, None, b),), True
    for rs in deep.routine_webs(n):
        yield rs, True
    for ms, rs in macros.wide_programs(min(n, 8)):
        yield {"macros": ms, "routines": rs}, True


GAP = (("jump", "gap"), ("label", "gap"))  # the jump is dropped: offsets and positions differ from here on


def form_programs():
    """Every condition form and number of arguments, every switch header x case header, message switches; after a gap."""
    for c in forms.conditions():
        for what, b in forms.cond_contexts(c):
            if what in ("if", "while not", "or right"):
                yield (("generic", 0, None, None, GAP + b),), False
    for h in forms.headers():
        for c in forms.case_heads():
            yield (("generic", 0, None, None, GAP + (("switch", h, ((c, (forms.o(1), ("break",))),)), forms.o(2))),), False
    for b in forms.mswitch_programs():
        yield (("generic", 0, None, None, GAP + b),), False
    for b in forms.ctx_end_programs():
        yield (("generic", 0, None, None, GAP + b),), False


def run_program_case(case, rec):
    run_program(case, rec)


def texts():
    for t in ("", "def 1 { end; }", "def 0 { end; } def 2 { end; }", "def 0 for actor -1 { end; }", "def 0 for actor 0x10 { end; }", "def 0 for object (3) { end; }", "def 0 for_performer(PERF) { end; }",
              "//?: is-ssb-script: true\ndef 0 { @a; foo(); Jump(@a); }", "//?: is-ssb-script: true\ncoro A { foo(); Return(); } coro B { @x; Branch($V, 1, @x); Return(); }",
              "def 0 { foo('\\n\"'); end; }", "def 0 { foo({english='ä', german=\"名\"}); end; }", "def 0 { foo(-0.5, 007.50); end; }"):
        yield t, False


def spaces(tier):
    q = tier == "quick"
    return [
        runner.Space("exit status", fail_cases, run_fail, "both commands as processes and in process on every kind of broken input, settings, JSON structure; and on good input", chunk=4),
        runner.Space("lookup", lookup_cases, run_lookup, "all orders and spellings of up to two --lookup paths x places of the imported file", chunk=4),
        runner.Space("json", json_cases, run_json, "decompile command on all routine kinds x target kinds x argument types (alone and in pairs) x 1..3 routines; printed text compiles back to the routine set"),
        runner.Space("texts", texts, run_program, "hand-picked sources: SsbScript, gaps in the ids, unusual targets and literals"),
        runner.Space("many", lambda: many(8 if q else 16), run_program, "repeated constructs, label webs and 1..8 (thorough 16) routines that jump to each other", chunk=8),
        runner.Space("forms", form_programs, run_program, "every condition form, switch header x case header, message switch and context-end form behind a dropped op", chunk=32),
        runner.Space("programs", lambda: programs(3 if q else 4), run_program, "compile command then decompile command on all bodies of cost <= 3 (thorough 4), all simple statements, routine tables, macros", chunk=32),
    ]


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__]))
