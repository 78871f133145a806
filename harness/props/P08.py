"""The same graph written down differently must give the same answers."""
import itertools

from core import fail
from difamilies import DFAM
from families import FAM, METHOD
from graphs import TRAV, gen_digraph, gen_graph, labels, respell
from props.P15 import CLASSES

ENTROPY = 900
RULE = ("two presentations differing in edge order, orientation, traversal or labels were compared on at least one "
        "answer with two or more members; distinct by graph, presentations and queries")
BUDGET = {"quick": 9000, "thorough": 150000}
FIXED = []


def _fixed():
    for kind in KINDS:
        for spell in (0, 1):
            p0 = dict(order=[0, 1, 2, 3, 4, 5], flip=0, name=0, kind="int1", trav="as-is", src=-1, perm=[0, 1, 2, 3, 4], spell=0)
            FIXED.append(dict(d=False, g=dict(n=5, edges=[[0, 1], [1, 2], [2, 3], [3, 0], [3, 4], [1, 4]]),
                              p=[p0, dict(p0, kind=kind, spell=spell, name=21), dict(p0, kind=kind, spell=spell, trav="greedy", src=2)],
                              q=[["trees", [0, 1], None], ["best", [[1, 2, 3, -1, -2, 4], [0], 0, 1], ["paths", [[0, 4], 0]]],
                                 ["class", "chordal_graphs", None], ["evset", None, [5, 63, 9]], ["vset", None, [5, 63, 9]],
                                 ["universe", [[1, None, 2.5, -1, None, 3], 1], None]]))
            FIXED.append(dict(d=True, g=dict(n=5, edges=[[0, 1], [1, 2], [2, 3], [3, 0], [3, 4], [4, 1]]),
                              p=[p0, dict(p0, kind=kind, spell=spell), dict(p0, kind=kind, spell=spell, trav="dfs", src=1)],
                              q=[["directed_cycles", None, None], ["prob", [[1, 2, 3, 4, 5, 6], [0], 0, 1], [5, 63, 9]]]))


KINDS = ["int1", "int0", "scatter", "str", "strnum", "tuple", "neg", "float", "big", "quirky", "nested", "date", "obj",
         "mixed", "opaque"]


_fixed()


class Labels(list):
    """Labels that are written differently, but equal, at every use."""

    k = 0

    def __getitem__(self, i):
        v = list.__getitem__(self, i)
        if not isinstance(i, int):
            return v
        self.k += 1
        w = respell(v, self.k * 7 // 3)
        # a numpy number compared with a tuple is an array, not a truth value
        return v if self.kind == "mixed" and type(w).__module__ == "numpy" else w

    def __iter__(self):
        return (self[i] for i in range(len(self)))


EXTRA = ["class", "partitions", "balanced", "induced", "winduced", "forbidden", "vset", "evset", "prob", "rel", "cost",
         "best", "named", "unary", "universe"]
UNARY = ["minimal", "maximal", "complement", "blocking", "remove_some_edge", "add_some_edge",
         "remove_add_some_edges", "graph_size", "smaller", "larger", "including_v", "excluding_v", "including_e",
         "excluding_e", "invert", "including_g", "excluding_g", "included_g"]


def gen_pres(src, n, m, directed, first):
    if first:
        return dict(order=list(range(m)), flip=0, name=0, kind="int1", trav="as-is", src=-1, perm=list(range(n)),
                    spell=0)
    return dict(order=src.shuffle(range(m)), flip=0 if directed else src.bits(m), name=0 if directed else src.bits(m),
                kind=src.choice(KINDS), trav=src.choice(TRAV), src=src.int(-1, n - 1), perm=src.shuffle(range(n)),
                spell=src.below(3))


def gen(src, tier):
    directed = src.chance(1, 5)
    big = src.chance(1, 4)
    if directed:
        g = gen_digraph(src, tier, nmax=8 if big else 5, mmax=16 if big else 9)
    else:
        g = gen_graph(src, tier, nmax=9 if big else 6, mmax=14 if big else 9, big=False)
    g = dict(n=g["n"], edges=sorted(g["edges"]) if src.chance(1, 2) else g["edges"])
    n, m = g["n"], len(g["edges"])
    qs = []
    for _ in range(src.int(2, 6)):
        if directed:
            k = src.choice(list(DFAM) + ["cost", "best", "prob", "unary", "universe"])
            a = DFAM[k][0](src, g) if k in DFAM else None
        else:
            k = src.choice(list(FAM) + EXTRA * 2)
            a = FAM[k][0](src, g) if k in FAM else None
        if a is None and k not in FAM and k not in DFAM:
            if k == "class":
                a = src.choice(CLASSES)
            elif k == "partitions":
                lo = src.int(1, n)
                a = [lo, lo + src.int(0, 3)]
            elif k == "balanced":
                a = [[src.int(1, 4) for _ in range(n)], src.choice([1.0, 1.5, 2.0, 3.0]), src.int(1, 4)]
            elif k == "winduced":
                a = [[src.int(0, 4) for _ in range(n)], src.int(0, 6), src.int(0, 9)]
            elif k == "forbidden":
                a = [src.subset(range(m)) or [0] for _ in range(src.int(1, 3))]
            elif k in ("prob", "rel", "cost", "best"):
                a = [[src.int(0, 16) if k in ("prob", "rel") else src.int(-5, 6) for _ in range(m)],
                     src.sample(range(n), src.int(1, 3)), src.int(-6, 10), src.below(3)]
            elif k == "named":
                a = [src.below(6), src.below(m), src.bits(m)]
            elif k == "unary":
                a = [src.choice(UNARY if not directed else [x for x in UNARY]), src.below(max(n, m))]
            elif k == "universe":
                a = [[src.choice([None, src.int(-6, 9) / 2]) for _ in range(m)], src.below(2)]
        base = None
        if k in ("vset", "evset", "prob", "cost", "best", "named", "unary"):
            if src.chance(1, 2) or directed:
                base = [src.bits(m) for _ in range(src.int(1, 8))]
            else:
                f = src.choice(["trees", "paths", "cycles", "matchings", "forests", "bipartite_graphs"])
                base = [f, FAM[f][0](src, g)]
        qs.append([k, a, base])
    return dict(d=directed, g=g, p=[gen_pres(src, n, m, directed, i == 0) for i in range(src.int(2, 3))], q=qs)


class Edges:
    """Edges whose endpoints are spelled anew at every use."""

    def __init__(self, e, bits, m):
        self.e, self.bits, self.m = e, bits, m

    def __getitem__(self, i):
        if not 0 <= i < self.m:
            raise IndexError(i)
        return self.e(i, self.bits)

    def __len__(self):
        return self.m


class Pres:
    """One way to write the graph down; edges keep their canonical number."""

    def __init__(self, g, p, directed):
        self.n, self.edges, self.p, self.directed = g["n"], [tuple(e) for e in g["edges"]], p, directed
        lab = labels(p["kind"], self.n)
        self.lab = [lab[p["perm"][v]] for v in range(self.n)]
        self.inv = {l: i for i, l in enumerate(self.lab)}
        if p.get("spell") == 1:
            self.lab = Labels(self.lab)
            self.lab.kind = p["kind"]
        self.m = len(self.edges)

        def e(i, bits):
            u, v = self.edges[i]
            return (self.lab[v], self.lab[u]) if bits >> i & 1 else (self.lab[u], self.lab[v])
        # how edges are named in requests
        self.E = Edges(e, p["name"], self.m) if p.get("spell") == 1 else [e(i, p["name"]) for i in range(self.m)]
        self.listed = [e(i, p["flip"]) for i in range(self.m)]  # how they were listed
        self.idx = {}
        for i, (u, v) in enumerate(self.listed):
            self.idx[u, v] = i
            if not directed:
                self.idx[v, u] = i

    def register(self, C, weights=None, how=0):
        L = [self.listed[i] for i in self.p["order"]]
        kw = {}
        if weights:
            if how == 0 or self.directed:
                L = [self.listed[i] + ((weights[i],) if weights[i] is not None else ()) for i in self.p["order"]]
            else:
                kw["weights"] = {self.E[i]: w for i, w in enumerate(weights) if w is not None}
        s = self.p["src"]
        if kw:
            from graphillion import Universe
            C = Universe
        C.set_universe(L, traversal=self.p["trav"], source=None if s < 0 else self.lab[s], **kw)
        return L

    def elist(self, mask):
        return [self.E[i] for i in range(self.m) if mask >> i & 1]

    graph = elist

    def check_universe(self, U, L):
        """-> the weights it reports, by edge number"""
        seen = {}
        for e in U:
            if e[:2] not in self.idx or self.listed[self.idx[e[:2]]] != e[:2]:
                fail("the universe reports the edge %r, listed were %r" % (e, L))
            i = self.idx[e[:2]]
            if i in seen:
                fail("the universe reports the edge %r twice" % (e,))
            seen[i] = e[2] if len(e) > 2 else None
        if len(seen) != self.m:
            fail("the universe reports %r, listed were %r" % (U, L))
        if self.p["trav"] == "as-is" and [e[:2] for e in U] != [e[:2] for e in L]:
            fail("the universe reports the order %r, listed as-is were %r" % (U, L))
        return seen

    def mask(self, gr):
        r = 0
        for e in gr:
            r |= 1 << self.idx[tuple(e)[:2]]
        return r

    def canon(self, gs, lim=1500):
        k = gs.len()
        if k > lim:
            # too many to list: the size profile and how often each edge occurs
            return ("big", k, tuple(gs.graph_size(i).len() for i in range(self.m + 1)),
                    tuple(gs.including(self.E[i]).len() for i in range(self.m)))
        return frozenset(self.mask(x) for x in gs)


def answer(P, C, k, a, base, st):
    import graphillion as g
    if k in (DFAM if P.directed else FAM):
        _, call, _c = (DFAM if P.directed else FAM)[k]
        return P.canon(call(getattr(C, k if P.directed else METHOD[k]), P, a))
    if base is not None:
        if isinstance(base[0], str):
            gs = FAM[base[0]][1](getattr(C, METHOD[base[0]]), P, base[1])
        else:
            gs = C([P.graph(x) for x in base])
    if k == "class":
        from graphillion.graphclass import GraphClass
        return P.canon(getattr(GraphClass, a)())
    if k == "partitions":
        return P.canon(C.partitions(a[0], a[1]))
    if k == "balanced":
        return P.canon(C.balanced_partitions(weight_list={P.lab[v]: w for v, w in enumerate(a[0])}, ratio=a[1],
                                             num_comps=a[2]))
    if k == "induced":
        return P.canon(C.induced_graphs())
    if k == "winduced":
        return P.canon(C.weighted_induced_graphs(weight_list={P.lab[v]: w for v, w in enumerate(a[0])}, lower=a[1],
                                                 upper=a[1] + a[2]))
    if k == "forbidden":
        return P.canon(C.forbidden_induced_subgraphs(C([P.graph(sum(1 << i for i in set(x))) for x in a])))
    if k == "vset":
        vs = gs.to_vertexsetset()
        if vs.len() > 4000:
            return ("big", vs.len())
        return frozenset(frozenset(P.inv[v] for v in s) for s in vs)
    if k == "evset":
        ev = gs.to_edgevertexsetset()
        if ev.len() > 4000:
            return ("big", ev.len())
        return frozenset(frozenset(P.inv[x] if not isinstance(x, tuple) or x in P.inv else ("e", P.idx[x]) for x in s)
                         for s in ev)
    if k == "prob":
        return round(gs.probability({P.E[i]: w / 16 for i, w in enumerate(a[0])}), 9)
    if k == "rel":
        return round(C.reliability({P.E[i]: w / 16 for i, w in enumerate(a[0])}, [P.lab[v] for v in a[1]]), 9)
    if k == "cost":
        f = [gs.cost_le, gs.cost_ge, gs.cost_eq][a[3]]
        return P.canon(f({P.E[i]: w for i, w in enumerate(a[0])}, a[2]))
    if k == "best":
        w = {P.E[i]: x for i, x in enumerate(a[0])}
        it = gs.min_iter(w) if a[3] % 2 else gs.max_iter(w)
        return tuple(sum(a[0][i] for i in range(P.m) if P.mask(x) >> i & 1) for x in itertools.islice(it, 40))
    if k == "named":
        op, i, bits = a
        e = P.E[i]
        if op == 0:
            gs.add(e)
        elif op == 1:
            gs.discard(e)
        elif op == 2:
            gs.flip(e)
        elif op == 3:
            return (e in gs, P.graph(bits) in gs, e + (2.5,) in gs)
        elif op == 4:
            gs.add(P.graph(bits))
        else:
            gs = C({"include": [e], "exclude": [x for x in P.elist(bits) if x != e]})
        return P.canon(gs)
    if k == "unary":
        op, x = a
        if op in ("blocking", "complement", "minimal", "maximal", "remove_some_edge", "add_some_edge",
                  "remove_add_some_edges"):
            r = getattr(gs, op)()
        elif op in ("graph_size", "smaller", "larger"):
            r = getattr(gs, op)(x % (P.m + 1))
        elif op == "invert":
            r = ~gs
        elif op[-1] == "g":
            r = getattr(gs, op[:-2])(P.graph(x * 2654435761 >> 3 & (1 << P.m) - 1))
        elif op[-1] == "v":
            r = getattr(gs, op[:-2])(P.lab[x % P.n])
        else:
            r = getattr(gs, op[:-2])(P.E[x % P.m])
        return P.canon(r)
    if k == "universe":
        L = P.register(C, *a)
        U = C.universe()
        try:
            seen = P.check_universe(U, L)
            for i, x in enumerate(a[0]):
                if (1 if x is None else x) != (1 if seen[i] is None else seen[i]):
                    fail("the universe reports the weight %r for %r, registered was %r" % (seen[i], P.listed[i], x))
            if not P.directed:
                V = g.VertexSetSet.universe()
                if len(V) != P.n or set(V) != set(P.lab):
                    fail("the vertex universe is %r for the edges %r" % (V, L))
            # the weights are in effect
            w = [1 if x is None else x for x in a[0]]
            full = C([P.graph(1 << i) for i in range(P.m)])
            order = [w[P.mask(x).bit_length() - 1] for x in full.min_iter()]
            if order != sorted(w):
                fail("iteration by the registered weights %r visits single edges with weights %r" % (w, order))
            return tuple(seen[i] for i in range(P.m))
        finally:
            P.register(C)
    raise ValueError(k)


def run(case, st):
    import graphillion
    C = graphillion.DiGraphSet if case["d"] else graphillion.GraphSet
    P = [Pres(case["g"], p, case["d"]) for p in case["p"]]
    ref = []
    for j, pr in enumerate(P):
        pr.register(C)
        for i, (k, a, base) in enumerate(case["q"]):
            r = answer(pr, C, k, a, base, st)
            st.units += 1
            if j == 0:
                ref.append(r)
                st.tag(k if not k == "unary" else "unary " + a[0])
                if isinstance(r, (frozenset, tuple)) and len(r) >= 2:
                    st.nontrivial = True
            elif r != ref[i]:
                d = ""
                if isinstance(r, frozenset) and isinstance(ref[i], frozenset):
                    d = "; only the first: %s; only the second: %s" % (list(ref[i] - r)[:3], list(r - ref[i])[:3])
                fail("%s %s on %s: %s with %s, %s with %s%s" % (
                    k, a, base, ref[i] if not isinstance(ref[i], frozenset) else "%d members" % len(ref[i]),
                    P[0].p, r if not isinstance(r, frozenset) else "%d members" % len(r), pr.p, d))
    st.tag("directed" if case["d"] else "undirected")
