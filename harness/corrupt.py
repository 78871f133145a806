"""Valid calls with one argument, or a part of one, replaced by something else."""
import os
import sys

import difamilies
import families

JUNK = [None, "x", 1.5, -1, 0, 1, 10 ** 30, (), {}, set(), [None], object, b"x", float("nan"), float("inf"), True, "1", [()],
        ((1, 2),), {1: 1}, range(0), 1 << 31, -(1 << 40), "\ud800", "", frozenset([0]), [[]], -0.0, 1j, range(5, 2)]


def _nodes(x, path, out):
    """All places inside x, the containers included."""
    if isinstance(x, dict):
        for k in list(x):
            out.append(path + (("k", k),))
            out.append(path + (("v", k),))
            _nodes(x[k], path + (("v", k),), out)
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            out.append(path + (("i", i),))
            _nodes(y, path + (("i", i),), out)
        out.append(path + (("+", len(x)),))
        if x:
            out.append(path + (("-", 0),))


def _put(x, path, j):
    if not path:
        return j
    (t, k), rest = path[0], path[1:]
    if t == "k":
        y = dict(x)
        v = y.pop(k)
        try:
            y[j] = v
        except TypeError:       # not hashable
            y[None] = v
        return y
    if t == "v":
        y = dict(x)
        y[k] = _put(x[k], rest, j)
        return y
    y = list(x)
    if t == "+":
        y.append(j)
    elif t == "-":
        del y[-1]
    else:
        y[k] = _put(x[k], rest, j)
    return tuple(y) if isinstance(x, tuple) else y


def corrupted(args, kw, where, what):
    whole = [list(args), dict(kw)]
    out = []
    _nodes(whole[0], (("i", 0),), out)
    _nodes(whole[1], (("i", 1),), out)
    if not out:
        out = [(("i", 0), ("+", 0))]
    p = out[where % len(out)]
    j = JUNK[what % len(JUNK)]
    a, k = _put(whole, p, j)
    return a, {x if isinstance(x, str) else repr(x): v for x, v in k.items()}, p, j


def gen_call(src, g, dg):
    k = src.below(8)
    where, what = src.below(1 << 12), src.below(256)
    if k < 4:
        nm = src.choice(sorted(families.FAM))
        return ["GraphSet", nm, families.FAM[nm][0](src, g), where, what, src.below(2)]
    if k == 4:
        nm = src.choice(sorted(difamilies.DFAM))
        return ["DiGraphSet", nm, difamilies.DFAM[nm][0](src, dg), where, what, src.below(2)]
    return ["call", src.below(len(CALLS)), [src.below(1 << 12) for _ in range(4)], where, what, 0]


def _w(c, x, E):
    return {e: (x[0] >> i & 7) - 3 for i, e in enumerate(E)}


def _p(c, x, E):
    return {e: (x[0] >> i & 7) / 8 for i, e in enumerate(E)}


def first(it):
    return [x for _, x in zip(range(3), it)]


# name, callable and a valid list of arguments
CALLS = [
    lambda c, x: ("GraphSet()", c.g.GraphSet, [[[c.edge(0)], [c.edge(1), c.E[0]]]]),
    lambda c, x: ("GraphSet()", c.g.GraphSet, [{"include": [c.E[0]], "exclude": [c.E[-1]]}]),
    lambda c, x: ("DiGraphSet()", c.g.DiGraphSet, [[[c.edge(0, True)], [c.DE[0]]]]),
    lambda c, x: ("DiGraphSet()", c.g.DiGraphSet, [{"include": [c.DE[0]], "exclude": [c.DE[-1]]}]),
    lambda c, x: ("VertexSetSet()", c.g.VertexSetSet, [[[c.lab[0]], [c.lab[-1], c.lab[0]]]]),
    lambda c, x: ("VertexSetSet()", c.g.VertexSetSet, [{"include": [c.lab[0]], "exclude": [c.lab[-1]]}]),
    lambda c, x: ("EdgeVertexSetSet()", c.g.EdgeVertexSetSet, [[[c.lab[0]], [c.E[0], c.lab[-1]]]]),
    lambda c, x: ("GraphSet.cost_le", c.gs.cost_le, [_w(c, x, c.E), x[1] % 9 - 4]),
    lambda c, x: ("GraphSet.cost_eq", c.gs.cost_eq, [_w(c, x, c.E), x[1] % 9 - 4]),
    lambda c, x: ("GraphSet.cost_ge", c.gs.cost_ge, [_w(c, x, c.E), x[1] % 9 - 4]),
    lambda c, x: ("VertexSetSet.cost_ge", c.vs.cost_ge, [_w(c, x, c.lab), x[1] % 9 - 4]),
    lambda c, x: ("DiGraphSet.cost_le", c.ds.cost_le, [_w(c, x, c.DE), x[1] % 9 - 4]),
    lambda c, x: ("setset.cost_le", c.ss.cost_le, [_w(c, x, c.S), x[1] % 9 - 4]),
    lambda c, x: ("GraphSet.min_iter", lambda *a, **k: first(c.gs.min_iter(*a, **k)), [_w(c, x, c.E)]),
    lambda c, x: ("DiGraphSet.max_iter", lambda *a, **k: first(c.ds.max_iter(*a, **k)), [_w(c, x, c.DE)]),
    lambda c, x: ("VertexSetSet.max_iter", lambda *a, **k: first(c.vs.max_iter(*a, **k)), [_w(c, x, c.lab)]),
    lambda c, x: ("setset.min_iter", lambda *a, **k: first(c.ss.min_iter(*a, **k)), [_w(c, x, c.S)]),
    lambda c, x: ("GraphSet.probability", c.gs.probability, [_p(c, x, c.E)]),
    lambda c, x: ("DiGraphSet.probability", c.ds.probability, [_p(c, x, c.DE)]),
    lambda c, x: ("VertexSetSet.probability", c.vs.probability, [_p(c, x, c.lab)]),
    lambda c, x: ("setset.probability", c.ss.probability, [_p(c, x, c.S)]),
    lambda c, x: ("GraphSet.reliability", c.g.GraphSet.reliability, [_p(c, x, c.E), [c.lab[0], c.lab[-1]]]),
    lambda c, x: ("GraphSet.including", c.gs.including, [[c.edge(0), c.E[0]]]),
    lambda c, x: ("GraphSet.add", c.gs.copy().add, [[c.edge(0), c.E[0]]]),
    lambda c, x: ("GraphSet.flip", c.gs.copy().flip, [c.edge(0)]),
    lambda c, x: ("GraphSet.add_vertex?", c.evs.copy().add_vertex if hasattr(c.evs, "add_vertex") else c.gs.excluding,
                  [c.lab[0]]),
    lambda c, x: ("VertexSetSet.add", c.vs.copy().add, [[c.lab[0]]]),
    lambda c, x: ("DiGraphSet.update", c.ds.copy().update, [c.ds, c.ds.copy()]),
    lambda c, x: ("GraphSet.symmetric_difference_update", c.gs.copy().symmetric_difference_update, [c.gs, c.gs.copy()]),
    lambda c, x: ("setset.difference_update", c.ss.copy().difference_update, [c.ss, c.ss.copy()]),
    lambda c, x: ("setset.union", c.ss.union, [c.ss, c.ss.copy()]),
    lambda c, x: ("GraphSet.loads", c.g.GraphSet.loads, [c.gs.dumps()]),
    lambda c, x: ("independent_sets", c.g.VertexSetSet.independent_sets, [list(c.E), 1 + x[0] % 2]),
    lambda c, x: ("dominating_sets", c.g.VertexSetSet.dominating_sets, [list(c.E), 1 + x[0] % 2]),
    lambda c, x: ("GraphSet.__getitem__?", c.gs.graph_size, [1 + x[0] % 3]),
    lambda c, x: ("larger", c.gs.larger, [1 + x[0] % 3]),
    lambda c, x: ("smaller", c.vs.smaller, [1 + x[0] % 3]),
]


def build(c, call):
    """A name, and a function that makes the call."""
    kind, nm, a, where, what, within = call
    said = []

    def wrap(f):
        def g(*args, **kw):
            args, kw, p, j = corrupted(args, kw, where, what)
            said.append("%r replaced by %r" % (p, j))
            if os.environ.get("VERIF_DEBUG"):
                print("call:", f, args, kw, file=sys.stderr, flush=True)
            r = f(*args, **kw)
            return r
        return g

    if kind == "call":
        name, f, args = CALLS[nm](c, a)
        return name, lambda: wrap(f)(*args), said
    lab = type("L", (), {})()
    if kind == "GraphSet":
        lab.lab, lab.E, lab.n, lab.edges = c.lab, c.E, len(c.lab), c.case["g"]["edges"]
        lab.m = len(lab.E)
        f = getattr(c.gs if within else c.g.GraphSet, families.METHOD[nm])
        return "GraphSet." + nm, lambda: families.FAM[nm][1](wrap(f), lab, a), said
    lab.lab, lab.E, lab.n, lab.edges = c.dlab, c.DE, len(c.dlab), c.case["dg"]["edges"]
    lab.m = len(lab.E)
    f = getattr(c.ds if within else c.g.DiGraphSet, nm)
    return "DiGraphSet." + nm, lambda: difamilies.DFAM[nm][1](wrap(f), lab, a), said
