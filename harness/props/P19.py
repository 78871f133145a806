"""One-step neighbourhoods (remove, add, exchange) against the definition,
over sequences of universes of different classes and sizes in one process."""
from classes import Cls, diff, gen_members, gen_universe, universe_size
from core import fail
from families import FAM, METHOD
from graphs import Labelled, gen_graph

ENTROPY = 700
RULE = ("some one-step neighbourhood with at least two members of a family with at least two members was compared; "
        "distinct by sequence of universes, families and steps")
BUDGET = {"quick": 12000, "thorough": 250000}
CL = ["setset", "GraphSet", "DiGraphSet", "VertexSetSet"]
OPS = ["remove_some_element", "add_some_element", "remove_add_some_elements"]
SEARCH = ["trees", "paths", "cycles", "matchings", "forests", "cliques", "bipartite_graphs", "regular_graphs",
          "k_matchings", "steiner_trees"]


def gen_stage(src, tier):
    if src.chance(1, 6):
        g = gen_graph(src, nmax=8, mmax=14 if src.chance(1, 2) else 20, big=False)
        k = src.choice(SEARCH)
        return dict(k="search", g=g, f=k, a=FAM[k][0](src, g), ops=[src.below(3) for _ in range(src.int(1, 3))],
                    cut=src.int(-1, 6))
    if src.chance(1, 150):
        # more elements than fit in a byte
        n = src.int(250, 300)
        f = []
        for _ in range(src.int(1, 3)):
            x = 0
            for _ in range(src.int(0, 3)):
                x |= 1 << src.choice([src.below(n), 255 % n, n - 1, 0])
            f.append(x)
        return dict(k="model", u=dict(cls=src.choice(["setset", "VertexSetSet"]), n=n, kind="int1", perm=list(range(n))),
                    f=[sorted(set(f))], ops=[[src.below(3), 0, 1] for _ in range(src.int(1, 3))])
    u = gen_universe(src, classes=CL, nmax=8)
    n = universe_size(u)
    fams = []
    for _ in range(src.int(1, 3)):
        f = gen_members(src, u, 0, 8)
        if src.chance(1, 5):
            # only a few elements occur: gaps above, between and below
            keep = src.bits(n) & src.bits(n)
            f = sorted({x & keep for x in f})
        if src.chance(1, 12):
            f = sorted(set(f) | {(1 << n) - 1})
        if src.chance(1, 12):
            f = [0] if src.chance(1, 2) else []
        fams.append(f)
    return dict(k="model", u=u, f=fams, ops=[[src.below(3), src.below(len(fams)), src.int(1, 2)]
                                             for _ in range(src.int(1, 5))])


def gen(src, tier):
    return dict(s=[gen_stage(src, tier) for _ in range(src.int(1, 4))])


FIXED = [dict(s=[dict(k="model", u=dict(cls=c, n=n, kind="int1", perm=list(range(n))), f=[f], ops=[[2, 0, 1], [1, 0, 1], [0, 0, 1]])])
         for c, n, f in (("setset", 300, [7, 1 << 299 | 1]), ("VertexSetSet", 260, [1 << 256 | 1 << 3, 1 << 100]))]


def step(op, F, n):
    if op == 0:
        return {x & ~(1 << i) for x in F for i in range(n) if x >> i & 1}
    if op == 1:
        return {x | 1 << i for x in F for i in range(n) if not x >> i & 1}
    return {x & ~(1 << i) | 1 << j for x in F for i in range(n) if x >> i & 1 for j in range(n) if not x >> j & 1}


def flipped(gs, e):
    c = gs.copy()
    c.flip(e)
    return c


def run(case, st):
    for si, s in enumerate(case["s"]):
        if s["k"] == "model":
            K = Cls(s["u"])
            S = [K.make(f) for f in s["f"]]
            M = [set(f) for f in s["f"]]
            for op, a, times in s["ops"]:
                A, c, want = M[a], S[a], M[a]
                for t in range(times):
                    if len(want) > 200:
                        break
                    if not K.has("some"):
                        break
                    c, before = K.meth(c, OPS[op])(), c
                    want, A = step(op, want, K.n), want
                    if type(c) is not K.C:
                        fail("%s returns a %s" % (OPS[op], type(c)))
                    if len(want) > 4000:
                        if c.len() != len(want):
                            fail("%s of %s: %d members instead of %d" % (OPS[op], K.show(A), c.len(), len(want)))
                        break
                    got = K.read(c)
                    st.units += 1
                    st.tag(K.name + " " + OPS[op])
                    if si:
                        st.tag("after another universe")
                    if len(A) > 1 and len(want) > 1:
                        st.nontrivial = True
                    if got != want or c.len() != len(want):
                        fail("stage %d, %s.%s of %s (universe of %d): %s" % (si, K.name, OPS[op], K.show(A), K.n,
                                                                             diff(K, got, want)))
                    if K.read(before) != A:
                        fail("%s changed its operand" % OPS[op])
        else:
            from graphillion import GraphSet
            L = Labelled(s["g"])
            L.set_universe(GraphSet)
            gs = FAM[s["f"]][1](getattr(GraphSet, METHOD[s["f"]]), L, s["a"])
            if s["cut"] >= 0:
                gs = gs.larger(s["cut"])
            E = L.E
            k = gs.len()
            for op in s["ops"]:
                want = GraphSet([])
                if op == 0:
                    for e in E:
                        want |= flipped(gs.including(e), e)
                    got = gs.remove_some_edge()
                elif op == 1:
                    for e in E:
                        want |= flipped(gs.excluding(e), e)
                    got = gs.add_some_edge()
                else:
                    for e in E:
                        x = flipped(gs.including(e), e)
                        for f in E:
                            if e != f:
                                # members with e and without f
                                want |= flipped(x.excluding(f), f)
                    got = gs.remove_add_some_edges()
                st.units += 1
                st.tag("search " + OPS[op])
                if k > 1 and want.len() > 1:
                    st.nontrivial = True
                if got != want or got.len() != want.len():
                    d = (got - want).choice() if got - want else None
                    m = (want - got).choice() if want - got else None
                    fail("stage %d, %s of %d %s: %d members, %d expected; not expected: %r; missing: %r" % (
                        si, OPS[op], k, s["f"], got.len(), want.len(), d, m))
                # duality: complementing every member swaps adding and removing
                c = gs.complement()
                dual = [c.add_some_edge, c.remove_some_edge, c.remove_add_some_edges][op]().complement()
                if dual != got:
                    fail("stage %d, %s of %d %s disagrees with its dual: %d and %d members" % (
                        si, OPS[op], k, s["f"], got.len(), dual.len()))
