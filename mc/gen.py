"""Bounded-exhaustive generation of abstract programs (control-flow skeletons).

A skeleton uses placeholders ('O',) for a plain operation, 'Q' for a condition, 'H' for a switch header and 'K'
for a case header; `number` makes every one of them distinguishable (o1, o2, ...; $V == 1, $V == 2, ...), which
is the most discriminating assignment: any mixed up, lost, duplicated or reordered op becomes observable.
"""
from __future__ import annotations

from functools import lru_cache

from mc.src import C, I

# feature letters: o op, r return, e end/hold, j jump, c call, l label, i if, E elseif, x else, n not, 2 two conds,
# s switch, d default, f forever, w while, F for, W with, t ctx op
LABELS = ("a", "b")


class G:
    def __init__(self, feats, labels=("a",), maxdepth=3):
        self.f = set(feats)
        self.labels = labels
        self.maxdepth = maxdepth
        self._b = {}
        self._s = {}
        self._c = {}

    def blocks(self, n, sw, lp, d):
        key = (n, sw, lp, d)
        if key not in self._b:
            self._b[key] = list(self._blocks(n, sw, lp, d))
        return self._b[key]

    def _blocks(self, n, sw, lp, d):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for s in self.stmts(k, sw, lp, d):
                for rest in self.blocks(n - k, sw, lp, d):
                    yield (s,) + rest

    def stmts(self, n, sw, lp, d):
        key = (n, sw, lp, d)
        if key not in self._s:
            self._s[key] = list(self._stmts(n, sw, lp, d))
        return self._s[key]

    def _stmts(self, n, sw, lp, d):
        f = self.f
        if n == 1:
            if "o" in f:
                yield ("O",)
            if "r" in f:
                yield ("ret",)
            if "e" in f:
                yield ("end",)
            if "h" in f:
                yield ("hold",)
            if "W" in f:
                yield ("with", "actor", C("A"), ("O",))
            if "t" in f:
                yield ("OC",)
            if "M" in f:
                yield ("M",)
            if sw and "s" in f:
                yield ("break",)
            if lp:
                yield ("continue",)
                yield ("break_loop",)
            for l in self.labels:
                if "l" in f:
                    yield ("label", l)
                if "j" in f:
                    yield ("jump", l)
                if "c" in f:
                    yield ("call", l)
        if d <= 0:
            return
        m = n - 1  # budget below the header
        if "i" in f:
            for ie in self.ifs(m, sw, lp, d - 1):
                yield ie
        if "s" in f:
            for cs in self.cases(m, lp, d - 1, True):
                yield ("switch", "H", cs)
        if "f" in f:
            for b in self.blocks(m, sw, True, d - 1):
                yield ("forever", b)
        if "w" in f:
            for b in self.blocks(m, sw, True, d - 1):
                for neg in ((0, 1) if "n" in f else (0,)):
                    yield ("while", neg, "Q", b)
        if "F" in f:
            for b in self.blocks(m, sw, True, d - 1):
                yield ("for", ("O",), "Q", ("O",), b)

    def conds(self):
        return (("Q",), ("Q", "Q")) if "2" in self.f else (("Q",),)

    def negs(self):
        return (0, 1) if "n" in self.f else (0,)

    def ifs(self, m, sw, lp, d):
        for a in range(0, m + 1):
            for b in self.blocks(a, sw, lp, d):
                for neg in self.negs():
                    for cs in self.conds():
                        first = (neg, cs, b)
                        rest = m - a
                        if rest == 0:
                            yield ("if", (first,), None)
                        if "x" in self.f and rest >= 1:
                            # else costs 1
                            for e in self.blocks(rest - 1, sw, lp, d):
                                yield ("if", (first,), e)
                        if "E" in self.f and rest >= 1:
                            for c in range(0, rest):
                                for b2 in self.blocks(c, sw, lp, d):
                                    for neg2 in self.negs():
                                        for cs2 in self.conds():
                                            r2 = rest - 1 - c
                                            if r2 == 0:
                                                yield ("if", (first, (neg2, cs2, b2)), None)
                                            elif "x" in self.f:
                                                for e in self.blocks(r2 - 1, sw, lp, d):
                                                    yield ("if", (first, (neg2, cs2, b2)), e)

    def cases(self, m, lp, d, default_ok):
        """case lists of cost m; each case costs 1 plus its body; last case not empty."""
        key = (m, lp, d, default_ok)
        if key not in self._c:
            self._c[key] = list(self._cases(m, lp, d, default_ok))
        return self._c[key]

    def _cases(self, m, lp, d, default_ok):
        if m == 0:
            yield ()
            return
        hs = ["K"]
        if default_ok and "d" in self.f:
            hs.append(None)
        for a in range(0, m):
            for b in self.blocks(a, True, lp, d):
                for h in hs:
                    rest = m - 1 - a
                    if rest == 0:
                        if b:
                            yield ((h, b),)
                    else:
                        for tail in self.cases(rest, lp, d, default_ok and h is not None):
                            if tail:
                                yield ((h, b),) + tail


def labels_ok(blocks):
    """Every label used is defined exactly once, every label defined is used (others are renamings)."""
    defs, uses = [], []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "label":
                defs.append(x[1])
            elif len(x) == 2 and x[0] in ("jump", "call"):
                uses.append(x[1])
            else:
                for y in x:
                    walk(y)

    walk(blocks)
    if len(defs) != len(set(defs)):
        return False
    if set(defs) != set(uses):
        return False
    # canonical naming: first mention order a, b, ...
    return True


def number(body, start=0):
    """Replace placeholders by distinguishable ops / conditions."""
    st = {"o": start, "q": start, "k": start, "h": start}

    def nxt(k):
        st[k] += 1
        return st[k]

    def go(s):
        if isinstance(s, tuple) and s:
            if s == ("O",):
                return ("op", f"o{nxt('o')}", (), None)
            if s == ("OC",):
                return ("op", f"o{nxt('o')}", (), ("object", I(nxt("o"))))
            if s == ("M",):
                n = nxt("o")
                return ("mswitch", "Talk", C("$M"), ((I(n), ("s", f"m{n}")), (None, ("s", f"d{n}"))))
            if s[0] == "for":
                return ("for", go(s[1]), go(s[2]), go(s[3]), tuple(go(x) for x in s[4]))
            return tuple(go(x) for x in s)
        if s == "Q":
            return ("cmp", C("$V"), "==", I(nxt("q")), False)
        if s == "K":
            return ("v", I(nxt("k")))
        if s == "H":
            return ("var", C(f"$X{nxt('h')}"))
        return s

    return tuple(go(s) for s in body)


def bodies(feats, n, labels=(), maxdepth=3):
    g = G(feats, labels, maxdepth)
    for b in g.blocks(n, False, False, maxdepth):
        if labels and not labels_ok(b):
            continue
        yield b


if __name__ == "__main__":
    import sys

    for feats, labels, N in (("or2inExs dfwF", (), 5), ("orlcjinxsdfw", ("a",), 5), ("orlj2inExsdfwFcWe", ("a", "b"), 4)):
        for n in range(1, N + 1):
            print(feats, n, sum(1 for _ in bodies(feats, n, labels)))
