import itertools

import networkx as nx
import numpy as np

from core import fail
from graphs import Labelled, Oracle, check_family, gen_graph
from props import _big

ENTROPY = 260
RULE = ("at least one query of the case has an answer that is neither empty nor all subsets of the universe; "
        "cases are distinct by graph, labels, edge order and arguments")
BUDGET = {"quick": 5000, "thorough": 80000}

CLASSES = ["claw_graphs", "claw_free_graphs", "diamond_graphs", "diamond_free_graphs", "gem_graphs",
           "gem_free_graphs", "odd_hole_graphs", "odd_hole_free_graphs", "chordal_graphs", "cographs",
           "chordal_bipartite_graphs", "split_graphs", "block_graphs", "ptolemaic_graphs", "threshold_graphs",
           "gridline_graphs", "domino_graphs", "linear_domino_graphs"]


def gen(src, tier):
    g = gen_graph(src, tier, nmax=7, mmax=9)
    if src.chance(1, 4):
        # dense little graphs, where the patterns live
        n = src.int(4, 5)
        E = [list(p) for p in itertools.combinations(range(n), 2)]
        drop = src.below(3)
        E = src.shuffle(E)[drop:]
        vs = sorted({v for e in E for v in e})
        E = [[vs.index(u), vs.index(v)] for u, v in E]
        g = dict(g, n=len(vs), edges=E)
    n, m = g["n"], len(g["edges"])
    qs = []
    for _ in range(src.int(2, 4)):
        k = src.below(8)
        if k < 4:
            qs.append(["class", src.choice(CLASSES)])
        elif k == 4:
            qs.append(["induced", None])
        elif k == 5:
            a = {}
            w = [1] * n
            scale = src.weighted([(5, 1), (1, 1000), (1, 70000)])
            if src.chance(4, 5):
                a["w"] = [[v, src.int(0, 6) * scale + (src.below(2) if scale > 1 else 0)]
                          for v in (range(n) if src.chance(3, 4) else src.subset(range(n)))]
                for v, x in a["w"]:
                    w[v] = x
            tot = sum(w)
            if src.chance(3, 4):
                a["lo"] = src.int(0, max(1, tot // scale)) * scale + src.below(2)
            if src.chance(3, 4):
                a["hi"] = a.get("lo", 0) + src.int(0, max(1, tot // scale)) * scale
            qs.append(["weighted", a])
        else:
            # a few concrete forbidden subgraphs
            kind = src.below(3)
            pats = []
            for _ in range(src.int(1, 5)):
                sub = src.sample(range(m), src.int(1, min(m, [3, 5, 8][kind])))
                pats.append(sorted(sub))
            if src.chance(1, 12):
                pats.append([])
            qs.append(["forbid", pats])
    return dict(g=g, q=qs)


class Patterns:
    """Induced sub-patterns over vertex subsets of a small universe."""

    def __init__(self, O):
        self.O = O

    def inside(self, S):
        S = set(S)
        return [i for i, (u, v) in enumerate(self.O.edges) if u in S and v in S]

    def has_induced(self, k, recognise):
        """Boolean array: G has a set of k vertices inducing a pattern."""
        O = self.O
        bad = np.zeros(O.N, dtype=bool)
        for S in itertools.combinations(range(O.n), k):
            ins = self.inside(S)
            full = sum(1 << i for i in ins)
            hits = []
            for sub in range(1 << len(ins)):
                E = [O.edges[ins[j]] for j in range(len(ins)) if sub >> j & 1]
                if recognise(S, E):
                    hits.append(sum(1 << ins[j] for j in range(len(ins)) if sub >> j & 1))
            if hits:
                bad |= np.isin(O.S & full, hits)
        return bad


def iso(pattern):
    P = nx.Graph(pattern)
    want = sorted(d for _, d in P.degree())

    def rec(S, E):
        if len(E) != len(pattern):
            return False
        H = nx.Graph()
        H.add_nodes_from(S)
        H.add_edges_from(E)
        return sorted(d for _, d in H.degree()) == want and nx.is_isomorphic(H, P)
    return rec


def cyc(k):
    return [(i, (i + 1) % k) for i in range(k)]


CLAW = [(0, 1), (0, 2), (0, 3)]
DIAMOND = [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3)]
GEM = [(0, 1), (1, 2), (2, 3), (4, 0), (4, 1), (4, 2), (4, 3)]
P4 = [(0, 1), (1, 2), (2, 3)]
TWOK2 = [(0, 1), (2, 3)]
W4 = cyc(4) + [(4, i) for i in range(4)]


def exact(O, pattern):
    """The edge set itself, without isolated vertices, is the pattern."""
    P = nx.Graph(pattern)
    k = P.number_of_nodes()
    cand = np.nonzero((O.cnt == len(pattern)) & (O.nverts == k))[0]
    ok = np.zeros(O.N, dtype=bool)
    for m in cand:
        H = nx.Graph([O.edges[i] for i in range(O.m) if m >> i & 1])
        ok[m] = nx.is_isomorphic(H, P)
    return ok


def class_cond(O, name):
    P = Patterns(O)
    n = O.n

    def free(*pats):
        ok = np.ones(O.N, dtype=bool)
        for p in pats:
            k = len({v for e in p for v in e})
            if k <= n:
                ok &= ~P.has_induced(k, iso(p))
        return ok

    def holes(lo, step=1):
        return [cyc(k) for k in range(lo, n + 1, step)]
    if name == "claw_graphs":
        return exact(O, CLAW)
    if name == "diamond_graphs":
        return exact(O, DIAMOND)
    if name == "gem_graphs":
        return exact(O, GEM)
    if name == "odd_hole_graphs":
        ok = np.zeros(O.N, dtype=bool)
        for c in holes(5, 2):
            ok |= exact(O, c)
        return ok
    if name == "claw_free_graphs":
        return free(CLAW)
    if name == "diamond_free_graphs":
        return free(DIAMOND)
    if name == "gem_free_graphs":
        return free(GEM)
    if name == "odd_hole_free_graphs":
        return free(*holes(5, 2))
    if name == "chordal_graphs":
        return free(*holes(4))
    if name == "cographs":
        return free(P4)
    if name == "chordal_bipartite_graphs":
        return free(*holes(6)) & O.bipartite()
    if name == "split_graphs":
        return free(TWOK2, cyc(4), cyc(5))
    if name == "block_graphs":
        return free(DIAMOND, *holes(4))
    if name == "ptolemaic_graphs":
        return free(GEM, *holes(4))
    if name == "threshold_graphs":
        return free(P4, cyc(4), TWOK2)
    if name == "gridline_graphs":
        return free(CLAW, DIAMOND, *holes(5, 2))
    if name == "domino_graphs":
        return free(W4, CLAW, GEM)
    if name == "linear_domino_graphs":
        return free(CLAW, DIAMOND)
    raise ValueError(name)


def direct(name, H):
    """Second, structural characterisation of some classes (None: not given)."""
    if name == "chordal_graphs":
        return nx.is_chordal(H)
    if name == "split_graphs":
        V = list(H)
        for k in range(len(V) + 1):
            for S in itertools.combinations(V, k):
                T = [v for v in V if v not in S]
                if all(H.has_edge(a, b) for a, b in itertools.combinations(S, 2)) and \
                        not any(H.has_edge(a, b) for a, b in itertools.combinations(T, 2)):
                    return True
        return False
    if name == "threshold_graphs":
        H = H.copy()
        while len(H):
            for v in list(H):
                if H.degree(v) in (0, len(H) - 1):
                    H.remove_node(v)
                    break
            else:
                return False
        return True
    if name == "cographs":
        def co(G):
            if len(G) <= 1:
                return True
            cs = list(nx.connected_components(G))
            if len(cs) == 1:
                G = nx.complement(G)
                cs = list(nx.connected_components(G))
                if len(cs) == 1:
                    return False
            return all(co(G.subgraph(c)) for c in cs)
        return co(H)
    if name == "block_graphs":
        return all(H.subgraph(b).number_of_edges() == len(b) * (len(b) - 1) // 2
                   for b in nx.biconnected_components(H))
    if name in ("domino_graphs", "linear_domino_graphs"):
        cl = [set(c) for c in nx.find_cliques(H)] if len(H) else []
        if any(sum(v in c for c in cl) > 2 for v in H):
            return False
        if name == "linear_domino_graphs":
            return all(len(a & b) <= 1 for a, b in itertools.combinations(cl, 2))
        return True
    return None


def run(case, st):
    from graphillion import GraphSet
    from graphillion.graphclass import GraphClass
    L = Labelled(case["g"])
    O = Oracle(L.n, L.edges)
    L.set_universe(GraphSet)
    for kind, a in case["q"]:
        if kind == "class":
            gs = getattr(GraphClass, a)()
            c = class_cond(O, a)
            what = "GraphClass.%s()" % a
            step = max(1, O.N // 60)
            for mk in range(0, O.N, step):
                H = nx.Graph()
                H.add_nodes_from(range(L.n))
                H.add_edges_from(L.edges[i] for i in range(L.m) if mk >> i & 1)
                d = direct(a, H)
                if d is None:
                    break
                assert d == c[mk], "the two oracles disagree on %s for %s" % (a, L.graph(mk))
        elif kind == "induced":
            gs = GraphSet.induced_graphs()
            c = closed(O)
            what = "induced_graphs()"
        elif kind == "weighted":
            kw = {}
            w = np.ones(L.n, dtype=np.int64)
            if "w" in a:
                kw["weight_list"] = {L.lab[v]: x for v, x in a["w"]}
                for v, x in a["w"]:
                    w[v] = x
            if "lo" in a:
                kw["lower"] = a["lo"]
            if "hi" in a:
                kw["upper"] = a["hi"]
            gs = GraphSet.weighted_induced_graphs(**kw)
            tot = (O.touched * w).sum(axis=1)
            c = closed(O) & (tot >= a.get("lo", 0)) & (tot <= a.get("hi", 4294967295 // 2))
            what = "weighted_induced_graphs(%s)" % kw
        else:
            pats = [sum(1 << i for i in p) for p in a]
            fam = GraphSet([L.graph(p) for p in pats])
            gs = GraphSet.forbidden_induced_subgraphs(fam)
            c = np.ones(O.N, dtype=bool)
            for p in pats:
                V = {v for i in range(L.m) if p >> i & 1 for v in L.edges[i]}
                full = sum(1 << i for i, (u, v) in enumerate(L.edges) if u in V and v in V)
                c &= (O.S & full) != p
            what = "forbidden_induced_subgraphs(%s)" % [L.graph(p) for p in pats]
        check_family(L, gs, c, what, st, fail)
        k = int(c.sum())
        st.tag(a if kind == "class" else kind)
        if 0 < k < O.N:
            st.nontrivial = True
            st.tag("selective")


def closed(O):
    """Connected induced subgraphs with at least one edge."""
    ok = O.ncomps == 1
    for i, (u, v) in enumerate(O.edges):
        ok &= O.bit[i] | ~(O.touched[:, u] & O.touched[:, v])
    return ok
_big.extend(globals(), ['induced', 'winduced'])
