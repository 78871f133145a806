"""Graph objects instead of edge lists: with converters installed, every
request means the same as with plain edges."""
import importlib.util
import itertools
import os
import sys

from core import fail
from props import P08

ENTROPY = P08.ENTROPY
RULE = ("answers of two or more members were compared between a presentation by plain edge lists and one by graph objects of "
        "another kind; distinct by graph, presentations and queries")
BUDGET = {"quick": 6000, "thorough": 100000}
KINDS = ["nx2", "nx1", "net", "str"]


def _nx():
    return importlib.import_module("networkx")


class Net:
    """A graph class of the user's; not a list, set or tuple."""

    def __init__(self, edges):
        self.e = tuple(edges)

    def __len__(self):
        return len(self.e)


def _class(kind, directed):
    """-> (to_graph, to_edges) for one kind of graph objects"""
    if kind in ("nx2", "nx1"):
        nx = _nx()
        T = nx.DiGraph if directed else nx.Graph
        if kind == "nx2":
            return lambda L: nx.from_edgelist(L, create_using=T), nx.to_edgelist

        def tg(L):
            g = T()
            for e in L:
                g.add_edge(e[0], e[1])
                if len(e) > 2:
                    g[e[0]][e[1]]["w"] = e[2]
            return g

        def te(g):
            return [(u, v, d["w"]) if "w" in d else (u, v) for u, v, d in g.edges(data=True)]
        return tg, te
    if kind == "net":
        return Net, lambda g: list(g.e)

    # a frozen registry: graphs are named by strings
    names = {}

    def tg(L):
        k = "graph %d" % len(names)
        names[k] = list(L)
        return k
    return tg, lambda k: names[k] if isinstance(k, str) and k in names else _reject(k)


def _reject(k):
    raise TypeError(k)


class ConvPres(P08.Pres):
    def __init__(self, g, p, directed):
        P08.Pres.__init__(self, g, p, directed)
        self.tg, self.te = _class(p["conv"], directed)

    def register(self, C, weights=None, how=0):
        C.converters["to_graph"], C.converters["to_edges"] = self.tg, self.te
        L = [self.listed[i] for i in self.p["order"]]
        kw = {}
        if weights:
            if how == 0 or self.directed:
                if self.p["conv"] == "nx2":
                    L = [e + ({} if weights[i] is None else {"weight": weights[i]},) for i, e in zip(self.p["order"], L)]
                else:
                    L = [e + (() if weights[i] is None else (weights[i],)) for i, e in zip(self.p["order"], L)]
            elif self.p["conv"] != "nx2":
                kw["weights"] = {self.E[i]: w for i, w in enumerate(weights) if w is not None}
            else:
                L = [e + ({} if weights[i] is None else {"weight": weights[i]},) for i, e in zip(self.p["order"], L)]
        s = self.p["src"]
        if kw:
            from graphillion import Universe
            C = Universe
        C.set_universe(self.tg(L), traversal=self.p["trav"], source=None if s < 0 else self.lab[s], **kw)
        return L

    def graph(self, mask):
        return self.tg(self.elist(mask))

    def mask(self, gr):
        if isinstance(gr, (list, set, tuple)):
            fail("a plain %r was returned although graph objects are converted" % (gr,))
        L = list(self.te(gr))
        r = P08.Pres.mask(self, L)
        if len(L) != bin(r).count("1"):
            fail("a graph object was returned with the edges %r" % (L,))
        return r

    def check_universe(self, U, L):
        if isinstance(U, list):
            fail("the universe is a plain list although graph objects are converted")
        seen = {}
        for e in self.te(U):
            i = self.idx.get(tuple(e)[:2])
            if i is None or i in seen:
                fail("the universe reports the edge %r, listed were %r" % (e, L))
            w = e[2] if len(e) > 2 else None
            if self.p["conv"] == "nx2":
                w = (w or {}).get("weight")
            seen[i] = w
        if len(seen) != self.m:
            fail("the universe reports %r, listed were %r" % (list(self.te(U)), L))
        return seen


def gen(src, tier):
    c = P08.gen(src, tier)
    c["p"] = c["p"][:2]
    c["p"][1]["conv"] = src.choice(KINDS)
    c["p"][0]["spell"] = c["p"][1]["spell"] = 0
    return c


def run(case, st):
    import graphillion
    C = graphillion.DiGraphSet if case["d"] else graphillion.GraphSet
    g, d = case["g"], case["d"]
    P = [P08.Pres(g, case["p"][0], d), ConvPres(g, case["p"][1], d)]
    if "conv" not in case["p"][1]:
        return
    ref = []
    for j, pr in enumerate(P):
        pr.register(C)
        for i, (k, a, base) in enumerate(case["q"]):
            r = P08.answer(pr, C, k, a, base, st)
            st.units += 1
            if j == 0:
                ref.append(r)
                st.tag(k if not k == "unary" else "unary " + a[0])
                if isinstance(r, (frozenset, tuple)) and len(r) >= 2:
                    st.nontrivial = True
            elif r != ref[i]:
                dd = ""
                if isinstance(r, frozenset) and isinstance(ref[i], frozenset):
                    dd = "; only with edge lists: %s; only with graph objects: %s" % (
                        list(ref[i] - r)[:3], list(r - ref[i])[:3])
                fail("%s %s on %s: %s with edge lists, %s with %s%s" % (
                    k, a, base, ref[i] if not isinstance(ref[i], frozenset) else "%d members" % len(ref[i]),
                    r if not isinstance(r, frozenset) else "%d members" % len(r), pr.p, dd))
    st.tag("converters " + case["p"][1]["conv"])
