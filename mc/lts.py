"""Labelled transition systems of routines and their lock-step (product) exploration.

A system is a list of nodes:
  ('op', label, next)        performs label, goes to next
  ('test', label, t, f)      condition test, both outcomes
  ('end', label)             flow-ending op (or ('Return', ()) when running off the end)
  ('end', label, next)       flow-ending op run in the context of another entity: in the strict reading it ends the flow,
                             in the lenient reading (which the code documents) it ends only what the other entity does
  ('goto', next)             silent
  ('bad', why)               something the model forbids (jump to nowhere, ...)
Everything is deterministic up to test outcomes, so equality of the sets of observable behaviours is
bisimilarity, and bisimilarity is decided by exploring the reachable part of the product.
"""
from __future__ import annotations

RETURN = ("Return", ())


def resolve(nodes, i):
    seen = None
    n = nodes[i]
    while n[0] == "goto":
        if seen is None:
            seen = set()
        if i in seen:
            return i, ("div",)
        seen.add(i)
        i = n[1]
        n = nodes[i]
    return i, n


def compare(A, a, B, b, stats=None):
    """Explore the product from (a, b). Returns None if every behaviour agrees, else a witness string.

    The strict reading of flow-ending ops in contexts is explored first, then the lenient one if there are any.
    """
    found = []
    res = _compare(A, a, B, b, stats, False, found)
    if res is None and found:
        res = _compare(A, a, B, b, stats, True, found)
        if res:
            res = "(an ending op in another entity's context ends only that entity) " + res
    return res


def _compare(A, a, B, b, stats, lenient, found):
    ia, _ = resolve(A, a)
    ib, _ = resolve(B, b)
    start = (ia, ib)
    parent = {start: None}
    queue = [start]
    ntrans = 0
    res = None
    while queue:
        pair = queue.pop(0)
        ra, na = resolve(A, pair[0])
        rb, nb = resolve(B, pair[1])
        if na[0] == "div" or nb[0] == "div":
            if na[0] != nb[0]:
                res = _witness(parent, pair, f"{_d(na)} vs {_d(nb)}")
                break
            continue
        if na[0] != nb[0] or (na[0] != "bad" and na[1] != nb[1]) or na[0] == "bad":
            res = _witness(parent, pair, f"{_d(na)} vs {_d(nb)}")
            break
        if na[0] == "op":
            succ = [("", na[2], nb[2])]
        elif na[0] == "test":
            succ = [("=T", na[2], nb[2]), ("=F", na[3], nb[3])]
        elif na[0] == "end" and len(na) > 2 and len(nb) > 2:
            found.append(1)
            succ = [("", na[2], nb[2])] if lenient else []
        elif na[0] == "end" and lenient and len(na) != len(nb):
            res = _witness(parent, pair, f"{_d(na)} in a context on one side only")
            break
        else:
            succ = []
        for tag, x, y in succ:
            ntrans += 1
            p = (resolve(A, x)[0], resolve(B, y)[0])
            if p not in parent:
                parent[p] = (pair, _d(na) + tag)
                queue.append(p)
    if stats is not None:
        stats.states(len(parent))
        stats.transitions(ntrans)
    return res


def _d(n):
    if n[0] == "div":
        return "<silent cycle>"
    if n[0] == "bad":
        return f"<{n[1]}>"
    name, params = n[1]
    pre = "end " if n[0] == "end" else ""
    return f"{pre}{name}({', '.join(map(str, params))})"


def _witness(parent, pair, msg):
    path = []
    p = parent[pair]
    while p is not None:
        path.append(p[1])
        p = parent[p[0]]
    return "after [" + " ; ".join(reversed(path)) + "]: " + msg


def reachable(nodes, starts):
    seen = set()
    todo = list(starts)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        n = nodes[i]
        if n[0] == "op":
            todo.append(n[2])
        elif n[0] == "test":
            todo += [n[2], n[3]]
        elif n[0] == "goto":
            todo.append(n[1])
    return seen
