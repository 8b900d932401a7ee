"""Exhaustive macro programs: bodies x call contexts, call graphs x definition orders, file layouts x import styles."""
from __future__ import annotations

from itertools import combinations, permutations, product

from mc import gen
from mc.forms import o, q
from mc.src import C, I

A, B = C("$a"), C("$b")


def parametrise(body):
    """Make a numbered body use the macro parameters $a, $b in ops, tests and headers."""

    def go(s):
        if not isinstance(s, tuple) or not s:
            return s
        if s[0] == "op" and len(s) == 4:
            ctx = (s[3][0], B) if s[3] else None
            return ("op", s[1], (A, I(7), B), ctx)
        if s[0] == "cmp":
            return ("cmp", A, s[2], s[3], s[4])
        if s[0] == "switch":
            return ("switch", ("var", B)) + tuple(go(x) for x in s[2:])
        if s[0] == "with":
            return ("with", s[1], A, go(s[3]))
        if s[0] == "mswitch":
            return ("mswitch", s[1], A, s[3])
        return tuple(go(x) for x in s)

    return tuple(go(s) for s in body)


def call(*args):
    return ("macro", "m", tuple(args))


C1 = call(I(3), C("$X"))
C2 = call(C("K"), C("$Y"))


def call_contexts():
    """(extra macros before m or after m, routines)"""
    g = lambda *b: (("generic", 0, None, None, tuple(b)),)
    g2 = lambda b, c: (("generic", 0, None, None, tuple(b)), ("generic", 1, None, None, tuple(c)))
    yield (), g(C1, o(1))
    yield (), g(o(1), C1, C2)
    yield (), g(("if", ((0, (q(1),), (C1,)),), None), o(1))
    yield (), g(("if", ((1, (q(1),), (C1,)),), (o(2),)), o(1))
    yield (), g(("if", ((0, (q(1),), (o(1),)), (0, (q(2),), (C1,))), (C2,)))
    yield (), g(("while", 0, q(1), (C1,)), o(1))
    yield (), g(("forever", (("if", ((0, (q(1),), (("break_loop",),)),), None), C1)), o(1))
    yield (), g(("for", o(1), q(1), o(2), (o(3), C1)), o(4))
    yield (), g(("switch", ("var", C("$S")), ((("v", I(1)), (C1,)), (("v", I(2)), (C2, ("break",))), (None, (o(2),)))), o(1))
    yield (), g(("switch", ("var", C("$S")), ((("v", I(1)), (C1,)),)), ("ret",))
    yield (), g2((C1,), (C2, o(1)))
    yield (), g2((("label", "a"), C1, ("if", ((0, (q(1),), (("jump", "a"),)),), None)), (o(1), ("jump", "b"), C2, ("label", "b")))
    outer = ("outer", ("$p", "$a"), (o(8, C("$p")), ("macro", "m", (C("$p"), C("$a"))), o(9, A)))
    yield (outer,), g(("macro", "outer", (I(5), C("Z"))), o(1))

    outer3 = ("outer", ("$b", "$a"), (("label", "a"), ("if", ((0, (q(1),), (("macro", "m", (B, A)), ("jump", "a"))),), (("macro", "m", (A, B)),))))
    yield (outer3,), g(("macro", "outer", (I(5), C("Z"))), ("macro", "outer", (I(6), C("Y"))), o(1))


def body_programs(feats, labels, n):
    ctxs = list(call_contexts())
    for k in range(1, n + 1):
        for b in gen.bodies(feats, k, labels, 3):
            m = ("m", ("$a", "$b"), parametrise(gen.number(b, 100)))
            for extra, routines in ctxs:
                yield ((m,) + extra if k % 2 else extra + (m,)), routines


# ---- parameters in every place ----------------------------------------------------------------------------
def param_programs():
    from mc import forms

    PPLC = C(forms.PPL)
    args = (I(4), C("$W"), C("K"), ("f", "2.5"), ("s", "txt"), ("l", (("english", "hi"), ("french", "yo"))), ("p", "mk", 0, 2, 3, 4), PPLC, C("$a"))
    uses = []
    for op in forms.CALC_OPS:
        uses += [("assign", "set", A, op, I(1), False), ("assign", "set", C("$V"), op, A, False), ("assign", "set", A, op, B, True)]
    uses += [("assign", "bit", A, I(2), I(1)), ("assign", "bit", C("$V"), I(2), A)]
    uses += [("assign", k, A) for k in ("clear", "init", "reset", "adv")]
    uses += [("assign", "dmode", A, B), ("assign", "scn", A, I(1), I(2))]
    uses += [("op", "u", (A,), None), ("op", "u", (B, A, I(1), A), None), ("op", "u", (I(1),), ("actor", A)), ("op", "u", (A,), ("object", B)), ("op", "u", (A,), ("performer", A))]
    uses += [("with", k, A, ("op", "u", (B,), None)) for k in ("actor", "object", "performer")]
    uses += [("mswitch", "Talk", A, ((B, ("s", "t")), (None, ("s", "d"))))]
    conds = []
    for op in forms.COND_OPS:
        conds += [("cmp", A, op, I(1), False), ("cmp", C("$V"), op, A, False), ("cmp", A, op, B, True)]
    conds += [("bit", 0, A, I(2)), ("scn", A, "==", I(1), I(2)), ("scn", A, "<", I(1), I(2)), ("cop", "BranchSum", (A, B))]
    uses += [("if", ((0, (c,), (o(1),)),), None) for c in conds]
    uses += [("while", 1, c, (o(1),)) for c in conds]
    heads = [("var", A), ("scn", A, 0), ("scn", A, 1), ("rnd", A), ("dm", A), ("hop", "ProcessSpecial", (A, B))]
    cases = [("v", A), ("menu2", A), ("cop", ">", A, False), ("cop", "==", B, True)]
    for h in heads:
        for c in cases:
            uses.append(("switch", h, ((c, (o(1), ("break",))), (None, (o(2),)))))
    for u in uses:
        m = ("m", ("$a", "$b"), (u, o(5)))
        for x in args:
            yield "direct", (m,), (("generic", 0, None, None, (("macro", "m", (x, C("$X"))), o(6))),)
            outer = ("out", ("$b", "$a", "$c"), (("macro", "m", (C("$c"), B)), o(7, C("$c"))))
            yield "nested", (outer, m), (("generic", 0, None, None, (("macro", "out", (I(1), I(2), x)), o(6))),)
            if x == PPLC:
                continue
            # the argument is written in a macro, and in the body of the called macro
            lit = ("lit", (), (("macro", "m", (x, C("$X"))), o(7, ("p", "in", 2, 0, 1, 5))))
            yield "written in a macro", (lit, m), (("generic", 0, None, None, (("macro", "lit", ()), o(6, ("p", "top", 2, 2, 8, 9)), ("macro", "m", (x, I(1))))),)


# ---- call graphs ----------------------------------------------------------------------------------------------
def digraphs(n, loops=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for mask in range(1 << len(pairs)):
        yield tuple(p for b, p in enumerate(pairs) if mask >> b & 1)


def acyclic(n, edges):
    left = set(range(n))
    es = set(edges)
    while True:
        free = [i for i in left if not any(a == i and b in left for a, b in es)]
        if not free:
            return not left
        left -= set(free)


def graph_macros(n, edges):
    """macro i (defined at position i) calls the macros it has edges to."""
    ms = []
    for i in range(n):
        body = [o(f"{i}a", C("$p"), I(i))]
        for a, b in edges:
            if a == i:
                body.append(("macro", f"m{b}", (C("$p"), I(i))))
        body.append(o(f"{i}z", C("$q"), I(i)))
        ms.append((f"m{i}", ("$p", "$q"), tuple(body)))
    return tuple(ms)


def graph_programs(n):
    for es in digraphs(n):
        if acyclic(n, es):
            called = {b for a, b in es}
            roots = [i for i in range(n) if i not in called] or list(range(n))
            yield graph_macros(n, es), (("generic", 0, None, None, tuple(("macro", f"m{i}", (C("$G"), I(9))) for i in roots) + (o(1),)),)


# ---- files ---------------------------------------------------------------------------------------------------
DIRS = ("proj", "proj/sub", "other")
LOOKUPS = ("lk1", "lk2")


def rel(frm, to):
    import posixpath

    r = posixpath.relpath(to, frm)
    return r if r.startswith("..") else "./" + r


def file_programs(small):
    """Cases: dict-like tuple (files, main path, lookups, routines, all macros).

    Macro x in main, y in file A, z in file B; all acyclic call sets; file places x import styles. Every place where a
    wrong resolution could look holds a decoy with the same macro names.
    """
    # call sets: subset of edges main->y, main->z, x->y, x->z, y->z
    edges = (("x", "y"), ("x", "z"), ("y", "z"))
    styles = ("rel", "abs", "lk", "lknest")
    for mask in range(1 << len(edges)):
        es = tuple(e for b, e in enumerate(edges) if mask >> b & 1)
        for da, db in product(DIRS + LOOKUPS, repeat=2):
            for sa, sb_main, sb_a in product(styles, repeat=3):
                # sb_main: how main imports B; sb_a: how A imports B
                def ok(style, d):
                    return style in ("rel", "abs") or (d in LOOKUPS)

                if not (ok(sa, da) and ok(sb_main, db) and ok(sb_a, db)):
                    continue
                if small and (sb_main != sb_a and "abs" in (sb_main, sb_a, sa)):
                    continue
                if ("lknest" in (sb_main, sb_a)) != (sb_main == sb_a == "lknest"):
                    continue
                for order in ("AB", "BA"):
                    yield es, da, db, sa, sb_main, sb_a, order


def file_case(case):
    """files: path -> (imports, macros); the main path; macros in effect; routines."""
    es, da, db, sa, sbm, sba, order = case
    nest_a = "n/" if sa == "lknest" else ""
    nest_b = "n/" if sbm == "lknest" else ""
    pa, pb = f"{da}/{nest_a}fa.exps", f"{db}/{nest_b}fb.exps"

    def imp(frm, path, style):
        d = frm.rsplit("/", 1)[0]
        if style == "rel":
            return rel(d, path)
        if style == "abs":
            return "@ROOT@/" + path
        return path.split("/", 1)[1]

    def body(n):
        b = [o(n + "1", C("$p")), ("label", "a")]
        for s, t in es:
            if s == n:
                b.append(("macro", t, (C("$p"),)))
        b.append(("if", ((0, (q(1),), (("jump", "a"),)), (0, (q(2),), (("ret",),))), None))
        b.append(o(n + "2"))
        return (n, ("$p",), tuple(b))

    main = "proj/main.exps"
    mx, my, mz = body("x"), body("y"), body("z")
    decoy_y = ("y", ("$p",), (o("decoy_y"),))
    decoy_z = ("z", ("$p",), (o("decoy_z"),))
    files = {}
    for d in DIRS + LOOKUPS:
        for nest in ("", "n/"):
            files[f"{d}/{nest}fa.exps"] = ((), (decoy_y,))
            files[f"{d}/{nest}fb.exps"] = ((), (decoy_z,))
    # lookups are searched in order: nothing of that name may sit in an earlier lookup path
    for style, d, name, nest in ((sa, da, "fa", nest_a), (sbm, db, "fb", nest_b), (sba, db, "fb", nest_b)):
        if style in ("lk", "lknest"):
            for e in LOOKUPS[: LOOKUPS.index(d)]:
                files.pop(f"{e}/{nest}{name}.exps", None)
                if order == "BA":
                    files[f"{e}/{nest}{name}.exps"] = None  # a directory of that name is not the file
    files[pb] = ((), (mz,))
    files[pa] = ((imp(pa, pb, sba),) if ("y", "z") in es else (), (my,))
    imports = (imp(main, pa, sa), imp(main, pb, sbm))
    files[main] = (imports if order == "AB" else imports[::-1], (mx,))
    routines = (("generic", 0, None, None, tuple(("macro", n, (I(i),)) for i, n in enumerate("xyz")) + (o(1),)),)
    return files, main, (mx, my, mz), routines


# ---- many / deep ------------------------------------------------------------------------------------------------
def chain_macros(k, ret=False, rot=1):
    """m0 -> m1 -> ... -> m(k-1); the parameters ($a, $ab, $abc) are passed on rotated, labels and returns in each."""
    ps = ("$a", "$ab", "$abc")
    out = []
    for i in range(k):
        cs = [C(p) for p in ps]
        body = [("label", "a"), o(f"{i}a", *cs)]
        if ret:
            body.append(("if", ((0, (("cmp", cs[i % 3], "==", I(i), False),), (("ret",),)),), None))
        if i + 1 < k:
            body.append(("macro", f"m{i + 1}", tuple(cs[(j + rot) % 3] for j in range(3))))
        body.append(("if", ((i % 2, (("cmp", cs[0], ">", I(i), False),), (("jump", "a"),)),), None))
        body.append(o(f"{i}z", cs[(i + 1) % 3]))
        out.append((f"m{i}", ps[i % 3:] + ps[: i % 3], tuple(body)))
    return tuple(out)


def wide_programs(n):
    g = lambda *b: (("generic", 0, None, None, tuple(b)),)
    for k in range(1, n + 1):
        for ret in (False, True):
            for rot in (0, 1, 2):
                ms = chain_macros(k, ret, rot)
                for order in (ms, ms[::-1], ms[::2] + ms[1::2]):
                    yield order, g(("macro", "m0", (I(7), C("X"), C("$Y"))), o(1), ("macro", f"m{k - 1}", (I(8), C("$Z"), I(9))))
        ps = tuple(f"$p{i}" for i in range(k))
        cs = tuple(C(p) for p in ps)
        many = ("many", ps, (o("m", *cs), ("if", ((0, tuple(("cmp", c, "==", I(1), False) for c in cs), (o("t", *cs[::-1]),)),), None)))
        for r in range(k):
            yield (("out", ps, (("macro", "many", cs[r:] + cs[:r]), o("o", *cs))), many), g(("macro", "out", tuple(I(20 + i) for i in range(k))), o(1))
        body = ("b", ("$a",), (("label", "x"), o("b", A), ("if", ((0, (q(1),), (("ret",),)), (1, (q(2),), (("jump", "x"),))), None)))
        # k calls, in one routine and in k routines
        yield (body,), g(*(("macro", "b", (I(i),)) for i in range(k)), o(1))
        yield (body,), tuple(("generic", i, None, None, (("macro", "b", (I(i),)), o(i)) if i % 2 else (("label", f"x{i}"), ("macro", "b", (C("V"),)), ("jump", f"x{i}"))) for i in range(k))
        # k macros that do not call each other, names that are prefixes of each other
        ms = tuple(("m" * (i + 1), ("$a",), (o(f"k{i}", A), ("if", ((0, (q(i),), (("ret",),)),), None))) for i in range(k))
        for order in (ms, ms[::-1]):
            yield order, g(*(("macro", "m" * (i + 1), (I(i),)) for i in range(k)), o(1))
        # every macro calls the next one twice
        if k <= 6:
            ms = tuple((f"d{i}", ("$a", "$b"), (o(f"{i}", A, C("$b")),) + ((("macro", f"d{i + 1}", (A, I(i))), ("macro", f"d{i + 1}", (C("$b"), A))) if i + 1 < k else ())) for i in range(k))
            yield ms, g(("macro", "d0", (I(1), C("$Q"))), o(1))


def deep_bodies(d):
    """Nested block kinds as macro bodies."""
    from mc import deep

    ctxs = list(call_contexts())
    i = 0
    for b in deep.chains(d):
        b = b[:-1]  # without the return
        m = ("m", ("$a", "$b"), parametrise(b))
        for _ in range(2):
            extra, routines = ctxs[i % len(ctxs)]
            i += 1
            yield (m,) + extra, routines


def chain_files(n):
    """cases (k, directories): a chain of k imported files, each in another directory."""
    for k in range(1, n + 1):
        for dirs in (tuple("d/" * i for i in range(k + 1)), tuple("d/" * (k - i) for i in range(k + 1)), tuple(f"x{i}/" for i in range(k + 1)), ("",) * (k + 1), tuple(("a/b/", "a/", "c/d/e/")[i % 3] for i in range(k + 1))):
            for every in (False, True):  # every file imports all following ones
                yield k, dirs, every


def chain_files_case(case):
    """(path -> (imports, macros), main path, macros, routines)"""
    k, dirs, every = case
    ms = chain_macros(k + 1, True)
    paths = [f"r/{d}f{i}.exps" for i, d in enumerate(dirs)]
    files = {}
    for i, p in enumerate(paths):
        d = p.rsplit("/", 1)[0]
        nxt = paths[i + 1 :] if every else paths[i + 1 : i + 2]
        files[p] = (tuple(rel(d, t) for t in nxt), (ms[i],))
    routines = (("generic", 0, None, None, (("macro", "m0", (I(7), C("X"), C("$Y"))), o(1), ("macro", f"m{k}", (I(8), C("$Z"), I(9))))),)
    return files, paths[0], ms, routines
