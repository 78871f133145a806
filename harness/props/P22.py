"""Invalid requests: an exception, a living process and an unchanged session."""
import io
import os
import tempfile

import corrupt as bent
from classes import Cls, gen_member
from core import fail
from graphs import gen_digraph, gen_graph, labels
from classes import trim

ENTROPY = 400
RULE = ("at least two different invalid requests were made in a session with weighted universes and non-empty "
        "collections of several classes; distinct by universes, collections and requests")
BUDGET = {"quick": 9000, "thorough": 200000}
KINDS = ["int1", "int0", "scatter", "str", "strnum", "neg"]


class Ctx:
    """A session: universes of all classes, an earlier one, a live collection each."""

    def __init__(self, case):
        import graphillion as g
        self.g = g
        self.case = case
        self.K = {}
        gg = case["g"]
        lab = labels(gg["kind"], gg["n"] + 3)
        self.lab, self.unknown = lab[:gg["n"]], lab[gg["n"]:]
        # an earlier universe that knows more vertices and edges
        if case["before"]:
            E0 = [(lab[a], lab[b]) for a, b in gg["edges"]] + [(self.lab[0], self.unknown[0]),
                                                               (self.unknown[0], self.unknown[1])]
            g.GraphSet.set_universe(E0)
            g.DiGraphSet.set_universe(E0)
        self.E = [(self.lab[a], self.lab[b]) for a, b in gg["edges"]]
        w = case["w"]
        E = [e + (w[i],) if w[i] is not None else e for i, e in enumerate(self.E)]
        g.GraphSet.set_universe(E, traversal=gg["trav"])
        dg = case["dg"]
        dl = labels(dg["kind"], dg["n"] + 3)
        self.dlab, self.dunknown = dl[:dg["n"]], dl[dg["n"]:]
        self.DE = [(self.dlab[a], self.dlab[b]) for a, b in dg["edges"]]
        g.DiGraphSet.set_universe([e + (w[i],) if i < len(w) and w[i] is not None else e for i, e in
                                   enumerate(self.DE)], traversal=dg["trav"])
        self.S = ["s%d" % i for i in range(case["sn"])]
        g.setset.set_universe(list(self.S))
        f = case["fam"]

        def pick(E, m):
            return [e for i, e in enumerate(E) if m >> i & 1]
        self.gs = g.GraphSet([pick(self.E, m) for m in f])
        self.ds = g.DiGraphSet([pick(self.DE, m) for m in f])
        self.vs = g.VertexSetSet([pick(self.lab, m) for m in f])
        self.evs = self.gs.to_edgevertexsetset() if f else g.EdgeVertexSetSet([])
        self.ss = g.setset([set(pick(self.S, m)) for m in f])
        self.live = dict(GraphSet=self.gs, DiGraphSet=self.ds, VertexSetSet=self.vs, EdgeVertexSetSet=self.evs,
                         setset=self.ss)
        self.nonedges = [(a, b) for i, a in enumerate(self.lab) for b in self.lab[i + 1:]
                         if (a, b) not in self.E and (b, a) not in self.E]
        # the reverse of an arc stands for the arc where the universe has only one of them (the tests ask for that)
        self.dnonedges = [(a, b) for a in self.dlab for b in self.dlab
                          if a != b and (a, b) not in self.DE and (b, a) not in self.DE]

    def x(self, k):
        return self.case["x"][k % len(self.case["x"])]

    def bad_edge(self, k, di=False):
        """An edge that the universe does not have."""
        non, lab, unk = (self.dnonedges, self.dlab, self.dunknown) if di else (self.nonedges, self.lab, self.unknown)
        r = self.x(k)
        if non and r % 3:
            e = non[r // 3 % len(non)]
        else:
            a, b = lab[r // 3 % len(lab)], unk[r // 7 % len(unk)]
            e = (a, b) if r // 5 % 3 == 0 else (b, a) if r // 5 % 3 == 1 else (unk[0], unk[1])
        return e if r % 11 else e + (2.5,)

    def bad_vertex(self, k, di=False):
        unk = self.dunknown if di else self.unknown
        return unk[self.x(k) % len(unk)]

    def edge(self, k, di=False):
        E = self.DE if di else self.E
        e = E[self.x(k) % len(E)]
        return e if di or self.x(k) & 64 else (e[1], e[0])

    def vertex(self, k, di=False):
        l = self.dlab if di else self.lab
        return l[self.x(k) % len(l)]

    def bad_graph(self, k, di=False):
        n = self.x(k) % 3
        l = [self.edge(k + 1 + i, di) for i in range(n)]
        l.insert(self.x(k + 4) % (n + 1), self.bad_edge(k + 5, di))
        t = self.x(k + 6) % 3
        try:
            return l if t == 0 else set(l) if t == 1 else frozenset(l)
        except TypeError:
            return l

    def snapshot(self):
        g = self.g
        U = g.universe.Universe if hasattr(g, "universe") and hasattr(g.universe, "Universe") else None
        s = {}
        s["GraphSet.universe()"] = list(g.GraphSet.universe())
        s["DiGraphSet.universe()"] = list(g.DiGraphSet.universe())
        s["VertexSetSet.universe()"] = list(g.VertexSetSet.universe())
        s["setset.universe()"] = list(g.setset.universe())
        if U:
            s["edge-and-vertex universe"] = list(U.edge_vertex_universe())
        for n, c in self.live.items():
            l = [frozenset(x) for x in c]
            s[n] = (len(l), frozenset(l), c.len())
        for n in ("GraphSet", "DiGraphSet", "VertexSetSet", "setset"):
            C = getattr(g, n)
            s[n + " power set"] = C({}).len()
            s[n + " complement"] = (~self.live[n]).len()
        s["GraphSet order by weight"] = [frozenset(x) for x in self.gs.min_iter()]
        s["DiGraphSet order by weight"] = [frozenset(x) for x in self.ds.max_iter()]
        s["VertexSetSet order by weight"] = [frozenset(x) for x in self.vs.min_iter()]
        s["spanning trees"] = g.GraphSet.trees(is_spanning=True).len()
        s["induced graphs"] = g.GraphSet.induced_graphs().len()
        s["directed cycles"] = g.DiGraphSet.directed_cycles().len()
        s["independent sets"] = g.VertexSetSet.independent_sets(list(self.E)).len()
        s["paths as vertex sets"] = frozenset(frozenset(x) for x in g.GraphSet.paths().to_vertexsetset())
        s["cliques of 3"] = g.GraphSet.cliques(3).len()
        s["repr"] = (repr(self.gs), repr(self.ds), repr(self.vs), repr(self.ss))
        return s


# ------------------------------------------------------------------- requests

REQ = {}


def req(name, n=1):
    def d(f):
        REQ[name] = f
        return f
    return d


def _simple(cname, attr, di):
    C = {"GraphSet": "gs", "DiGraphSet": "ds"}[cname]

    @req("%s.%s bad graph" % (cname, attr))
    def _(c):
        return lambda: getattr(getattr(c, C), attr)(c.bad_graph(0, di))

    if attr not in ("included",):
        @req("%s.%s bad edge" % (cname, attr))
        def _(c):
            return lambda: getattr(getattr(c, C), attr)(c.bad_edge(0, di))


for _cn, _di in (("GraphSet", False), ("DiGraphSet", True)):
    for _at in ("add", "remove", "discard", "including", "excluding", "included", "__contains__"):
        _simple(_cn, _at, _di)


def _more(cname, di):
    C = {"GraphSet": "gs", "DiGraphSet": "ds"}[cname]

    def cls(c):
        return getattr(c.g, cname)

    def col(c):
        return getattr(c, C)

    @req(cname + " constructor bad edge")
    def _(c):
        good = [c.edge(8, di)]
        l = [good, c.bad_graph(0, di)] if c.x(20) & 1 else [c.bad_graph(0, di), good]
        return lambda: cls(c)(l)

    @req(cname + " constructor include/exclude bad edge")
    def _(c):
        k = "include" if c.x(20) & 1 else "exclude"
        d = {k: [c.edge(9, di), c.bad_edge(0, di)]}
        if c.x(21) & 1:
            d["include" if k == "exclude" else "exclude"] = []
        return lambda: cls(c)(d)

    @req(cname + " contradicting include and exclude")
    def _(c):
        e = c.edge(3, di)
        o = [c.edge(5, di)] if c.x(6) & 1 else []
        return lambda: cls(c)({"include": [e] + o, "exclude": o[:0] + [e]})

    @req(cname + " unknown constraint key")
    def _(c):
        return lambda: cls(c)({"included" if c.x(1) & 1 else "": [c.edge(0, di)]})

    @req(cname + ".flip bad edge")
    def _(c):
        return lambda: col(c).flip(c.bad_edge(0, di))

    for at in ("including", "excluding", "remove", "discard", "__contains__"):
        @req("%s.%s bad vertex" % (cname, at))
        def _(c, at=at):
            return lambda: getattr(col(c), at)(c.bad_vertex(0, di))

    @req(cname + ".remove absent member")
    def _(c):
        E = c.DE if di else c.E
        fam = {frozenset(x) for x in col(c)}
        r = c.x(0)
        g = [e for i, e in enumerate(E) if r >> i & 1]
        if frozenset(g) in fam:
            return None
        return lambda: col(c).remove(g)

    @req(cname + ".pop empty")
    def _(c):
        return lambda: cls(c)([]).pop()

    @req(cname + ".choice empty")
    def _(c):
        return lambda: cls(c)([]).choice()

    @req(cname + ".cost filter incomplete or bad costs")
    def _(c):
        E = c.DE if di else c.E
        d = {e: 1 for e in E}
        k = c.x(0) % 4
        if k == 0:
            del d[E[c.x(1) % len(E)]]
        elif k == 1:
            d[c.bad_edge(2, di)] = 1
        elif k == 2:
            d[E[c.x(1) % len(E)]] = 1 << 31
        else:
            d[E[c.x(1) % len(E)]] = "1"
        f = ("cost_le", "cost_ge", "cost_eq")[c.x(3) % 3]
        return lambda: getattr(col(c), f)(d, 3)

    @req(cname + ".probability incomplete or out of range")
    def _(c):
        E = c.DE if di else c.E
        d = {e: 0.5 for e in E}
        k = c.x(0) % 4
        if k == 0:
            del d[E[c.x(1) % len(E)]]
        elif k == 1:
            d[c.bad_edge(2, di)] = 0.5
        elif k == 2:
            d[E[c.x(1) % len(E)]] = 1.5 if c.x(4) & 1 else -0.25
        else:
            d[E[c.x(1) % len(E)]] = "half"
        return lambda: col(c).probability(d)

    @req(cname + " iteration weights that are no numbers")
    def _(c):
        f = col(c).min_iter if c.x(1) & 1 else col(c).max_iter
        return lambda: list(f({c.edge(0, di): "heavy"}))

    @req(cname + ".set_universe duplicated edge")
    def _(c):
        E = [(a + (1.5,) if c.x(1) & 1 else a) for a in (c.DE if di else c.E)]
        e = E[c.x(0) % len(E)]
        if not di and c.x(2) & 1:
            e = (e[1], e[0])
        E.insert(c.x(3) % (len(E) + 1), e[:2])
        if c.x(5) & 1:
            E.insert(0, (c.vertex(6, di), "new") if isinstance(c.vertex(6, di), str) else (c.vertex(6, di), 12345))
        return lambda: cls(c).set_universe(E, traversal=("greedy", "as-is", "bfs", "dfs")[c.x(4) % 4])

    @req(cname + ".set_universe empty")
    def _(c):
        return lambda: cls(c).set_universe([], traversal=("greedy", "bfs", "dfs", "as-is")[c.x(4) % 4])

    @req(cname + ".set_universe unknown traversal")
    def _(c):
        E = [(c.vertex(0, di), c.bad_vertex(1, di), 7)] if c.x(2) & 1 else [e + (9,) for e in (c.DE if di else c.E)]
        return lambda: cls(c).set_universe(E, traversal=("best", "", "BFS")[c.x(3) % 3])

    @req(cname + ".set_universe unknown source")
    def _(c):
        E = [e + (9,) for e in (c.DE if di else c.E)][: 1 + c.x(1) % 5]
        return lambda: cls(c).set_universe(E, traversal=("greedy", "bfs", "dfs")[c.x(3) % 3],
                                           source=c.bad_vertex(2, di))

    @req(cname + ".set_universe malformed edge")
    def _(c):
        E = [e + (3,) for e in (c.DE if di else c.E)]
        E.insert(c.x(0) % (len(E) + 1), ((), (c.vertex(1, di),), None, ([], []))[c.x(2) % 4])
        return lambda: cls(c).set_universe(E, traversal=("greedy", "as-is", "bfs", "dfs")[c.x(4) % 4])

    @req(cname + ".graphs degree of a bad vertex")
    def _(c):
        d = {c.vertex(3, di): 1, c.bad_vertex(0, di): (1, range(0, 3))[c.x(1) & 1]}
        if di:
            return lambda: c.g.DiGraphSet.graphs(**{("in_degree_constraints", "out_degree_constraints")[c.x(2) & 1]: d})
        return lambda: c.g.GraphSet.graphs(degree_constraints=d)

    @req(cname + ".graphs empty degree range")
    def _(c):
        d = {c.vertex(3, di): range(2, 2)}
        if di:
            return lambda: c.g.DiGraphSet.graphs(**{("in_degree_constraints", "out_degree_constraints")[c.x(2) & 1]: d})
        return lambda: c.g.GraphSet.graphs(degree_constraints=d)

    @req(cname + " operand that is no collection")
    def _(c):
        o = (3, None, "x", [c.edge(0, di)])[c.x(0) % 4]
        f = ("union", "intersection", "difference", "symmetric_difference", "isdisjoint", "issubset", "join", "meet",
             "quotient", "remainder", "update", "intersection_update", "difference_update",
             "symmetric_difference_update", "quotient_update", "remainder_update", "subgraphs", "supergraphs",
             "non_subgraphs", "non_supergraphs")[c.x(1) % 20]
        return lambda: getattr(col(c), f)(o)

    @req(cname + " sizes that are no numbers")
    def _(c):
        f = ("smaller", "larger", "graph_size", "len")[c.x(1) % 4]
        return lambda: getattr(col(c), f)(("2", [], 1.5, {})[c.x(0) % 4])


_more("GraphSet", False)
_more("DiGraphSet", True)


# terminals and roots

def _terms(c, k, n, di=False):
    l = [c.vertex(k + i, di) for i in range(n - 1)]
    l.insert(c.x(k + 9) % n, c.bad_vertex(k + 10, di))
    return l


@req("GraphSet.graphs vertex_groups bad vertex")
def _(c):
    vg = [_terms(c, 0, 1 + c.x(1) % 3)]
    vg.insert(c.x(2) & 1, [c.vertex(3)] if c.x(4) & 1 else [])
    return lambda: c.g.GraphSet.graphs(vertex_groups=vg)


@req("GraphSet.graphs linear constraint bad edge")
def _(c):
    l = [c.edge(5) + (1,)] * (c.x(4) & 1) + [c.bad_edge(0)[:2] + (2.0,)]
    return lambda: c.g.GraphSet.graphs(linear_constraints=[(l, (0, 3))])


@req("GraphSet.graphs malformed num_edges")
def _(c):
    return lambda: c.g.GraphSet.graphs(num_edges=(range(3, 3), "2", [], 1.5)[c.x(0) % 4])


for _nm in ("steiner_subgraphs", "steiner_trees", "steiner_cycles", "steiner_paths", "connected_components",
            "forests"):
    @req("GraphSet.%s bad vertex" % _nm)
    def _(c, nm=_nm):
        f = getattr(c.gs if c.x(30) & 1 else c.g.GraphSet, nm)
        return lambda: f(_terms(c, 0, 1 + c.x(1) % 3))


@req("GraphSet.trees bad root")
def _(c):
    f = c.gs.trees if c.x(30) & 1 else c.g.GraphSet.trees
    return lambda: f(root=c.bad_vertex(0), is_spanning=bool(c.x(1) & 1))


@req("GraphSet.paths bad terminal")
def _(c):
    k = c.x(0) % 3
    t = [(c.bad_vertex(1),), (c.bad_vertex(1), c.vertex(2)), (c.vertex(2), c.bad_vertex(1))][k]
    f = c.gs.paths if c.x(30) & 1 else c.g.GraphSet.paths
    return lambda: f(*t, is_hamilton=bool(c.x(3) & 1))


@req("GraphSet.b_matchings bad vertex")
def _(c):
    d = {v: 1 for v in c.lab}
    d[c.bad_vertex(0)] = 1
    return lambda: c.g.GraphSet.b_matchings(d)


@req("GraphSet.f_factors bad vertex")
def _(c):
    d = {v: 1 for v in c.lab}
    d[c.bad_vertex(0)] = 1
    return lambda: c.g.GraphSet.f_factors(d)


@req("GraphSet.bicliques of different sides")
def _(c):
    a = 1 + c.x(0) % 3
    return lambda: c.g.GraphSet.bicliques(a, a + 1 + c.x(1) % 2)


@req("GraphSet.cliques of no vertex")
def _(c):
    return lambda: c.g.GraphSet.cliques(1)


@req("GraphSet.balanced_partitions bad vertex or bounds")
def _(c):
    w = {v: 1 for v in c.lab}
    if c.x(0) & 1:
        w[c.bad_vertex(1)] = 1
        return lambda: c.g.GraphSet.balanced_partitions(weight_list=w, ratio=0.5)
    return lambda: c.g.GraphSet.balanced_partitions(weight_list=w, lower=3, upper=2)


@req("GraphSet.weighted_induced_graphs bad vertex")
def _(c):
    w = {v: 1 for v in c.lab}
    w[c.bad_vertex(1)] = 1
    return lambda: c.g.GraphSet.weighted_induced_graphs(weight_list=w, lower=0, upper=3)


@req("GraphSet.reliability bad terminal or edge")
def _(c):
    p = {e: 0.5 for e in c.E}
    t = [c.vertex(0), c.vertex(1)]
    if c.x(2) & 1:
        t = _terms(c, 0, 2)
    else:
        p[c.bad_edge(3)] = 0.5
    return lambda: c.g.GraphSet.reliability(p, t)


@req("DiGraphSet.directed_st_paths bad terminal")
def _(c):
    a, b = c.bad_vertex(0, True), c.vertex(1, True)
    t = (a, b) if c.x(2) & 1 else (b, a)
    return lambda: c.g.DiGraphSet.directed_st_paths(*t, is_hamiltonian=bool(c.x(3) & 1))


@req("DiGraphSet.rooted_forests bad root")
def _(c):
    return lambda: c.g.DiGraphSet.rooted_forests(_terms(c, 0, 1 + c.x(1) % 2, True), is_spanning=bool(c.x(3) & 1))


@req("DiGraphSet.rooted_trees bad root")
def _(c):
    return lambda: c.g.DiGraphSet.rooted_trees(c.bad_vertex(0, True), is_spanning=bool(c.x(3) & 1))


# vertex sets

for _at in ("add", "remove", "discard", "including", "excluding", "included", "__contains__", "flip"):
    @req("VertexSetSet.%s bad vertex" % _at)
    def _(c, at=_at):
        v = c.bad_vertex(0)
        arg = v if at == "flip" or (c.x(1) & 1 and at != "included") else \
            [[v], {v, c.vertex(2)}, [c.vertex(2), v]][c.x(3) % 3]
        return lambda: getattr(c.vs, at)(arg)


@req("VertexSetSet constructor bad vertex")
def _(c):
    v = c.bad_vertex(0)
    a = [[[v]], [[c.vertex(1)], [c.vertex(2), v]], {"include": [v]}, {"exclude": [v, c.vertex(1)]}][c.x(3) % 4]
    return lambda: c.g.VertexSetSet(a)


@req("VertexSetSet contradicting include and exclude")
def _(c):
    return lambda: c.g.VertexSetSet({"include": [c.vertex(1)], "exclude": [c.vertex(1)]})


for _at in ("independent_sets", "dominating_sets", "vertex_covers", "cliques"):
    @req("VertexSetSet.%s bad edge" % _at)
    def _(c, at=_at):
        E = list(c.E)
        E.insert(c.x(0) % (len(E) + 1), [(c.vertex(1), c.bad_vertex(2)), (c.vertex(1),), (c.bad_vertex(2), c.vertex(3)),
                                         (c.vertex(1), c.vertex(3), 1)][c.x(4) % 4])
        return lambda: getattr(c.g.VertexSetSet, at)(E)


@req("VertexSetSet.set_universe duplicated")
def _(c):
    l = list(c.lab)
    l.insert(c.x(0) % len(l), c.vertex(1))
    return lambda: c.g.VertexSetSet.set_universe(l)


@req("VertexSetSet.set_universe malformed weight")
def _(c):
    l = [(v, 5) for v in c.lab]
    l.insert(c.x(0) % len(l), (c.bad_vertex(1), 1, 1))
    return lambda: c.g.VertexSetSet.set_universe(l)


@req("VertexSetSet.remove absent member or empty")
def _(c):
    if c.x(1) & 1:
        return lambda: c.g.VertexSetSet([]).pop()
    fam = {frozenset(x) for x in c.vs}
    r = c.x(0)
    m = [v for i, v in enumerate(c.lab) if r >> i & 1]
    if frozenset(m) in fam:
        return None
    return lambda: c.vs.remove(m)


@req("VertexSetSet costs and probabilities")
def _(c):
    d = {v: 1 for v in c.lab}
    if c.x(0) & 1:
        del d[c.vertex(1)]
    else:
        d[c.bad_vertex(1)] = 1
    if c.x(2) & 1:
        return lambda: c.vs.cost_le(d, 3)
    return lambda: c.vs.probability({k: 0.5 for k in d})


# edge-and-vertex sets

def _bad_ev(c):
    k = c.x(0) % 3
    e = c.edge(1)
    if k == 0:
        return [e, e[0], e[1], c.bad_vertex(2)]
    if k == 1:
        b = c.bad_edge(2)[:2]
        return [b, b[0], b[1]]
    return [c.bad_vertex(2)]


for _at in ("add", "remove", "discard", "including", "excluding", "included", "__contains__"):
    @req("EdgeVertexSetSet.%s unknown element" % _at)
    def _(c, at=_at):
        a = _bad_ev(c)
        if at in ("including", "excluding", "__contains__") and c.x(3) & 1:
            a = c.bad_vertex(4) if c.x(5) & 1 else c.bad_edge(4)[:2]
        return lambda: getattr(c.evs, at)(a)


@req("EdgeVertexSetSet.add_vertex unknown")
def _(c):
    return lambda: c.evs.add_vertex(c.bad_vertex(0))


@req("EdgeVertexSetSet constructor unknown or inconsistent")
def _(c):
    e = c.edge(1)
    a = [[_bad_ev(c)], [[e]], [[e, e[0]]], {"include": [e]}, [3]][c.x(2) % 5]
    return lambda: c.g.EdgeVertexSetSet(a)


@req("EdgeVertexSetSet.remove absent or empty")
def _(c):
    if c.x(1) & 1:
        return lambda: c.g.EdgeVertexSetSet([]).pop()
    fam = {frozenset(x) for x in c.evs}
    r = c.x(0)
    m = [v for i, v in enumerate(c.lab) if r >> i & 1]
    if frozenset(m) in fam:
        return None
    return lambda: c.evs.remove(m)


# setset

@req("setset.set_universe duplicated")
def _(c):
    return lambda: c.g.setset.set_universe(list(c.S) + [c.S[c.x(0) % len(c.S)]])


@req("setset constructor")
def _(c):
    e = c.S[c.x(0) % len(c.S)]
    a = [{"include": [e], "exclude": [e]}, {"x": [e]}, [3], {"include": 3}, 7][c.x(1) % 5]
    return lambda: c.g.setset(a)


@req("setset remove absent or empty")
def _(c):
    k = c.x(1) % 3
    if k == 0:
        return lambda: c.g.setset([]).pop()
    if k == 1:
        return lambda: c.g.setset([]).choice()
    fam = {frozenset(x) for x in c.ss}
    r = c.x(0)
    m = {v for i, v in enumerate(c.S) if r >> i & 1}
    if frozenset(m) in fam:
        return None
    return lambda: c.ss.remove(m)


@req("setset costs and probabilities")
def _(c):
    d = {v: 1 for v in c.S}
    if c.x(0) & 1:
        del d[c.S[c.x(1) % len(c.S)]]
    else:
        d["unknown"] = 1
    if c.x(2) & 1:
        return lambda: c.ss.cost_le(d, 3)
    return lambda: c.ss.probability({k: 0.5 for k in d})


@req("setset operand")
def _(c):
    o = (3, "x", [1], None)[c.x(0) % 4]
    f = ("union", "intersection", "difference", "symmetric_difference", "isdisjoint", "issubset", "issuperset", "join",
         "meet", "quotient", "remainder", "update", "intersection_update", "difference_update",
         "symmetric_difference_update", "quotient_update", "remainder_update", "subsets",
         "non_subsets")[c.x(1) % 19]
    if f in ("issubset", "issuperset", "isdisjoint", "union", "update", "intersection", "difference",
             "symmetric_difference", "intersection_update", "difference_update", "symmetric_difference_update") and \
            o is None:
        o = 2.5
    return lambda: getattr(c.ss, f)(o)


# saved text

def corrupt(c, text):
    """A text that is not what dumps() writes, and that cannot be read as such."""
    L = text.split("\n")
    while L and not L[-1]:
        L.pop()
    nodes = [i for i, l in enumerate(L) if len(l.split()) == 4]
    k = c.x(10) % 11
    r = c.x(11)
    if k == 0:
        return "", "empty text"
    if k == 1:
        return "\n".join(L[:-1]) + "\n", "without the final line"
    if k == 2:
        return "\n".join(L[:-1] + ["garbage", "."]) + "\n", "an unreadable line"
    if not nodes:
        return "\n".join(["Q"] + L[1:]) + "\n", "an unreadable terminal"
    i = nodes[r % len(nodes)]
    t = L[i].split()
    if k == 3:
        return "\n".join(L[:i] + [" ".join(t[:3])] + L[i + 1:]) + "\n", "a line of three columns"
    if k == 4:
        t[2 + r // 7 % 2] = "9999999"
    elif k == 5:
        t[2 + r // 7 % 2] = "X" * (3 if r & 1 else 400)
    elif k == 6:
        t[1] = ("0", "-1", "99999", "x", "2147483648", "70000")[r // 5 % 6]
    elif k == 7:
        t[0] = "n1"
    elif k == 8:
        # a child that is defined only later, or never
        if len(nodes) < 2:
            t[2] = t[0]
        else:
            L[nodes[0]], L[nodes[-1]] = L[nodes[-1]], L[nodes[0]]
            ids = {L[j].split()[0] for j in nodes}
            seen = set()
            ok = True
            for j in nodes:
                a = L[j].split()
                ok = ok and not any(x in ids and x not in seen for x in a[2:])
                seen.add(a[0])
            return (None if ok else "\n".join(L) + "\n"), "lines exchanged"
    elif k == 9:
        # a child at the same variable
        t[2], t[3] = t[0], "T"
    else:
        cut = "\n".join(L)
        return cut[: max(1, len(cut) - 2 - r % max(1, len(cut) - 3))], "cut off"
    return "\n".join(L[:i] + [" ".join(t)] + L[i + 1:]) + "\n", "line %d is %r" % (i, " ".join(t)[:60])


def _load(cname, attr):
    @req(cname + " malformed saved text")
    def _(c):
        o = getattr(c, attr)
        C = getattr(c.g, cname)
        if not (hasattr(C, "loads") and hasattr(o, "dumps")):
            return None
        if c.x(14) & 1:
            o = ~o if cname != "EdgeVertexSetSet" else o
        text, how = corrupt(c, o.dumps())
        if text is None:
            return None
        c.how = "%s: %s %r" % (attr, how, text[:200])
        if c.x(12) & 1:
            return lambda: C.loads(text)

        def f():
            p = tempfile.mktemp()
            try:
                with open(p, "w") as fp:
                    fp.write(text)
                with open(p) as fp:
                    return C.load(fp)
            finally:
                os.unlink(p)
        return f


for _cn, _at in (("GraphSet", "gs"), ("DiGraphSet", "ds"), ("VertexSetSet", "vs"), ("setset", "ss")):
    _load(_cn, _at)


@req("numbers beyond the supported range")
def _(c):
    """Every one of these numbers would mean something else if its upper bits were dropped."""
    g, n, k = c.g, c.x(1) % 5, c.x(0) % 26
    b = ((1 << 32) + n, (1 << 33) + n, (3 << 32) + n, (1 << 62) + n, (1 << 64) + n)[c.x(2) % 5]
    v, dv = c.vertex(3), c.vertex(3, True)
    r = (range(0, b + 1), range(n, b), range(b, b + 3), b)[c.x(4) % 4]
    A = g.GraphSet.DegreeDistribution_Any
    w = {u: 1 for u in c.lab}
    c.how = "#%d %r %r" % (k, b, r)
    return [
        lambda: g.GraphSet.graphs(num_edges=r),
        lambda: g.GraphSet.graphs(degree_constraints={v: r}),
        lambda: g.GraphSet.graphs(vertex_groups=[[v]], degree_constraints={v: r}, num_edges=2),
        lambda: g.DiGraphSet.graphs(in_degree_constraints={dv: r}),
        lambda: g.DiGraphSet.graphs(out_degree_constraints={dv: r}),
        lambda: g.GraphSet.regular_graphs(degree=b),
        lambda: g.GraphSet.regular_graphs(degree=(1, b)),
        lambda: c.gs.regular_graphs(degree=(b, b + 2), is_connected=False),
        lambda: g.GraphSet.regular_bipartite_graphs(degree=b),
        lambda: g.GraphSet.degree_distribution_graphs({0: A, 1: A, b: 1}, is_connected=bool(n & 1)),
        lambda: g.GraphSet.degree_distribution_graphs({0: A, 1: b}, is_connected=bool(n & 1)),
        lambda: g.GraphSet.cliques(b),
        lambda: g.GraphSet.k_matchings(b),
        lambda: g.GraphSet.b_matchings({u: b if u == v else 1 for u in c.lab}),
        lambda: g.GraphSet.k_factors(b),
        lambda: g.GraphSet.f_factors({u: b if u == v else 2 for u in c.lab}),
        lambda: g.GraphSet.partitions(num_comp_lb=1, num_comp_ub=b),
        lambda: g.GraphSet.balanced_partitions(weight_list=w, lower=0, upper=4, num_comps=b),
        lambda: g.GraphSet.balanced_partitions(weight_list=w, lower=b, upper=b + 3),
        lambda: g.GraphSet.balanced_partitions(weight_list={u: 1 << 31 for u in c.lab}, ratio=float(c.x(5) & 1),
                                               lower=0, upper=(1 << 32) - 1),
        lambda: g.GraphSet.balanced_partitions(weight_list={u: b if u == v else 1 for u in c.lab}, lower=0, upper=4),
        lambda: g.GraphSet.weighted_induced_graphs(weight_list=w, lower=b, upper=b + 3),
        lambda: g.GraphSet.weighted_induced_graphs(weight_list={u: 1 << 31 for u in c.lab}, lower=0, upper=4),
        lambda: g.GraphSet.weighted_induced_graphs(weight_list={u: b if u == v else 1 for u in c.lab}, lower=0,
                                                   upper=4),
        lambda: getattr((c.gs, c.ds)[c.x(5) & 1], ("smaller", "larger", "graph_size", "len")[c.x(6) % 4])(b),
        lambda: getattr((c.ss, c.vs)[c.x(5) & 1], ("smaller", "larger", "set_size", "len")[c.x(6) % 4])(b)
        if not (c.x(5) & 1 and c.x(6) % 4 == 2) else c.vs.smaller(b),
    ][k]


@req("GraphSet.load of something that is no file or text")
def _(c):
    k = c.x(0) % 4
    if k == 0:
        return lambda: c.g.GraphSet.loads(3)
    if k == 1:
        return lambda: c.g.GraphSet.load("no file")
    if k == 2:
        return lambda: c.gs.dump(None)
    return lambda: c.g.GraphSet.loads(b".")


NAMES = sorted(REQ)
LOADS = [x for x in NAMES if "saved text" in x]


# ----------------------------------------------------------------------- case

FIXED = []


def _fixed():
    g = dict(n=5, edges=[[0, 1], [1, 2], [2, 3], [3, 0], [3, 4]], kind="int1", trav="greedy", src=-1)
    dg = dict(n=4, edges=[[0, 1], [1, 2], [2, 0], [2, 3], [3, 2]], kind="int1", trav="as-is", src=-1)
    for i, name in enumerate(NAMES):
        for j in range(26 if name.startswith("numbers") else 6):
            x = [(k * 37 + j * 11 + i * 5 + k * k * j) % 4096 for k in range(16)]
            x[0] += 2 * j
            x[10] = j * 2 + (i & 1)
            x[12] = j
            FIXED.append(dict(g=g, dg=dg, sn=4, w=[2, None, -1, 3, None, 5, 1], fam=[3, 5, 9, 17, 30], before=j & 1,
                              reqs=[[name, x], [NAMES[(i + j) % len(NAMES)], x]]))


_fixed()

def gen(src, tier):
    g = trim(gen_graph(src, nmax=6, mmax=7, kinds=KINDS, big=False), 7)
    dg = trim(gen_digraph(src, nmax=4, mmax=6), 6)
    if dg["kind"] not in KINDS:
        dg["kind"] = src.choice(KINDS)
    n = src.int(1, 4)
    reqs = [src.choice(LOADS if src.chance(1, 8) else NAMES) for _ in range(n)]
    # valid calls, one argument of each, or a part of it, replaced
    bents = [bent.gen_call(src, g, dg) for _ in range(src.int(1, 3))] if src.chance(1, 3) else []
    return dict(g=g, dg=dg, bent=bents, sn=src.int(1, 5), w=[None if src.chance(1, 3) else src.int(-3, 9) for _ in range(7)],
                fam=sorted({src.bits(6) for _ in range(src.int(0, 6))}), before=src.below(2),
                reqs=[[r, [src.below(1 << 12) for _ in range(16)]] for r in reqs])


def run(case, st):
    ctx = Ctx(dict(case, x=[0]))
    base = ctx.snapshot()
    kinds = set()
    for call in case.get("bent", []):
        ctx.case["x"] = call[2] if call[0] == "call" else [3, 1, 4, 1, 5]
        name, f, said = bent.build(ctx, call)
        st.units += 1
        st.tag("arguments replaced: " + name)
        kinds.add("arguments replaced")
        try:
            f()
        except SystemError:
            raise
        except Exception as e:
            st.tag("raises " + type(e).__name__)
        else:
            st.tag("accepted")
        after = ctx.snapshot()
        for k in base:
            if after[k] != base[k]:
                fail("after %s with %s, %s is %r, was %r" % (name, said, k, after[k], base[k]))
    for name, xs in case["reqs"]:
        ctx.case["x"] = xs
        ctx.how = ""
        f = REQ[name](ctx)
        if f is None:
            continue
        st.units += 1
        st.tag(name)
        kinds.add(name)
        try:
            r = f()
        except Exception as e:
            st.tag("raises " + type(e).__name__)
        else:
            fail("%s %s is not refused: %r returned" % (name, ctx.how, r))
        after = ctx.snapshot()
        for k in base:
            if after[k] != base[k]:
                fail("after the refused request %s %s, %s is %r, was %r" % (name, ctx.how, k, after[k], base[k]))
        # valid work goes on as before
        e = ctx.E[xs[0] % len(ctx.E)]
        c = ctx.gs.copy()
        had = [e] in c
        if xs[1] & 1:
            c.add([(e[1], e[0])])
        else:
            c |= ctx.g.GraphSet([[e]])
        if c.len() != ctx.gs.len() + (0 if had else 1) or [e] not in c or ctx.g.GraphSet.loads(c.dumps()) != c:
            fail("after the refused request %s %s, adding a graph gives %d members" % (name, ctx.how, c.len()))
    if len(kinds) >= 2 and len(case["fam"]) > 1 and any(x is not None for x in case["w"][:len(ctx.E)]):
        st.nontrivial = True
