"""Conversions of edge families to vertex families and edge-and-vertex families."""
from core import fail
from families import FAM, METHOD
from graphs import Labelled, gen_graph
from props import _big

ENTROPY = 420
RULE = ("the converted family has at least two members and is not everything; distinct by graph, labels, order, "
        "traversal, family and follow-up operations")
BUDGET = {"quick": 6000, "thorough": 150000}
SEARCH = ["paths", "cycles", "trees", "forests", "matchings", "steiner_trees", "connected_components",
          "degree_distribution_graphs", "cliques"]
OPS = ["union", "intersection", "difference", "symmetric_difference", "join", "meet", "minimal", "maximal",
       "including", "excluding", "included", "subgraphs", "supergraphs", "non_subgraphs", "non_supergraphs",
       "smaller", "larger", "graph_size", "contains", "add", "discard"]


def gen_family(src, g):
    m = len(g["edges"])
    k = src.below(4)
    if k == 0:
        nm = src.choice([s for s in SEARCH if s in FAM])
        return [nm, FAM[nm][0](src, g)]
    if k == 1:
        return ["all"] if src.chance(1, 2) else ["empty"] if src.chance(1, 3) else ["unit"]
    cnt = src.int(1, 8)
    dens = src.choice([1, 2, 3])
    fam = []
    for _ in range(cnt):
        x = src.bits(m)
        if dens == 2:
            x &= src.bits(m)
        if dens == 3:
            x |= src.bits(m)
        fam.append(x)
    return ["list", fam]


def gen(src, tier):
    g = gen_graph(src, tier, nmax=6, mmax=8)
    fams = [gen_family(src, g) for _ in range(src.int(1, 3))]
    ops = [[src.choice(OPS), src.below(len(fams)), src.below(len(fams)), src.int(0, 14)] for _ in range(src.int(1, 5))]
    r = dict(g=g, f=fams, ops=ops)
    if src.chance(1, 6):
        # the vertices are registered explicitly, in another order, with others or without some
        r["vu"] = [src.bits(20), src.choice([0, 0, 0, 1, 3]), src.choice([0, 0, 0, 0, 1])]
    if src.chance(1, 60):
        r["hub"] = dict(k=src.choice(["star", "double", "wheel"]), n=src.choice([30, 127, 129, 255, 256, 257, 270, 300]),
                        trav=src.choice(["as-is", "greedy", "bfs", "dfs"]), seed=src.bits(16),
                        dens=[src.choice([0, 1, 2, 3, 3]) for _ in range(src.int(1, 4))])
    return r


def hubs(h, st):
    """Vertices of high degree: a few members on a large universe, converted one by one."""
    import random
    from graphillion import EdgeVertexSetSet, GraphSet
    rng = random.Random(h["seed"])
    n = h["n"] if h["k"] == "star" else h["n"] // 2
    E = [(0, i) for i in range(1, n + 1)]
    if h["k"] == "double":
        E += [(n + 1, i) for i in range(1, n + 1)]
    elif h["k"] == "wheel":
        E += [(i, i % n + 1) for i in range(1, n + 1)]
    if h["seed"] % 2:
        rng.shuffle(E)
    GraphSet.set_universe(E, traversal=h["trav"])
    mem = set()
    for d in h["dens"]:
        k = [1, rng.randint(2, len(E) - 1), rng.randint(len(E) * 3 // 4, len(E)), len(E)][d]
        mem.add(frozenset(rng.sample(E, k)) if rng.random() < .5 or d == 3 else frozenset(sorted(E)[:k]))
    gs = GraphSet([list(x) for x in mem])
    want = {frozenset(v for e in x for v in e) for x in mem}
    ends = [(x, frozenset(v for e in x for v in e)) for x in mem]
    what = "%s over %d edges, %d members" % (h["k"], len(E), len(mem))
    got = {frozenset(x) for x in gs.to_vertexsetset()}
    st.units += 2
    if got != want:
        fail("%s: vertex sets miss %s and have %s too much" % (
            what, [sorted(a - b)[:5] for a in want for b in got][:4], [sorted(b - a)[:5] for a in want for b in got][:4]))
    got = {frozenset(x) for x in gs.to_edgevertexsetset()}
    if got != {x | v for x, v in ends}:
        fail("%s: edge-and-vertex sets are wrong: sizes %s, expected %s" % (
            what, sorted(map(len, got)), sorted(len(x | v) for x, v in ends)))
    if len(mem) >= 2:
        st.nontrivial = True


def model(op, A, B, univ, k):
    """set-of-frozensets semantics of the operations used here"""
    if op in ("union", "intersection", "difference", "symmetric_difference"):
        return getattr(A, op)(B)
    if op == "join":
        return {a | b for a in A for b in B}
    if op == "meet":
        return {a & b for a in A for b in B}
    if op == "minimal":
        return {a for a in A if not any(b < a for b in A)}
    if op == "maximal":
        return {a for a in A if not any(b > a for b in A)}
    if op in ("subgraphs", "included"):
        return {a for a in A if any(a <= b for b in B)}
    if op in ("supergraphs", "including"):
        return {a for a in A if any(a >= b for b in B)}
    if op == "non_subgraphs":
        return {a for a in A if not any(a <= b for b in B)}
    if op in ("non_supergraphs", "excluding"):
        return {a for a in A if not any(a >= b for b in B)}
    if op == "smaller":
        return {a for a in A if len(a) < k}
    if op == "larger":
        return {a for a in A if len(a) > k}
    if op == "graph_size":
        return {a for a in A if len(a) == k}
    raise KeyError(op)


def run(case, st):
    if case.get("hub"):
        st.tag("hub")
        hubs(case["hub"], st)
        return
    from graphillion import EdgeVertexSetSet, GraphSet, VertexSetSet
    L = Labelled(case["g"])
    L.set_universe(GraphSet)
    vlabels = list(L.lab)
    dropped = set()
    if case.get("vu"):
        import random
        from graphillion import Universe
        rng = random.Random(case["vu"][0])
        vlabels += ["another %d" % i for i in range(case["vu"][1])]
        rng.shuffle(vlabels)
        if case["vu"][2] and len(vlabels) > 1:
            dropped = {vlabels.pop()}
        Universe.set_vertex_universe(vlabels, tuple_vertex=True)
        st.tag("vertex universe registered")
    canon = {}
    for (u, v) in L.E:
        canon[(u, v)] = canon[(v, u)] = (u, v)
    fams = []
    for f in case["f"]:
        if f[0] == "list":
            gs = L.family(GraphSet, f[1])
        elif f[0] == "all":
            gs = GraphSet({})
        elif f[0] == "empty":
            gs = GraphSet()
        elif f[0] == "unit":
            gs = GraphSet([[]])
        else:
            gs = FAM[f[0]][1](getattr(GraphSet, METHOD[f[0]]), L, f[1])
        fams.append(gs)
    VS, EV = [], []

    def rd_v(vss):
        l = [frozenset(s) for s in vss]
        r = set(l)
        if len(l) != len(r) or vss.len() != len(r):
            fail("vertex family repeats a member")
        return r

    def rd_e(evss):
        l = []
        for s in evss:
            l.append(frozenset(canon[x] if x in canon and x not in L.inv else x for x in s))
            if len(set(s)) != len(s):
                fail("member repeats an element: %r" % (s,))
        r = set(l)
        if len(l) != len(r) or evss.len() != len(r):
            fail("edge-vertex family repeats a member")
        return r

    def show(x):
        return sorted([sorted(map(repr, s)) for s in x])[:3]

    def cmp(what, got, want):
        st.units += 1
        if got != want:
            fail("%s: %d members, %d expected; not expected: %s; missing: %s (universe %r)" % (
                what, len(got), len(want), show(got - want), show(want - got), L.E))

    ambiguous = any(e in L.inv for e in L.E)
    for f, gs in zip(case["f"], fams):
        members = [frozenset(L.E[L.idx[tuple(e)]] for e in gr) for gr in gs]
        vm = {frozenset(v for e in s for v in e) for s in members}
        em = {frozenset(s | {v for e in s for v in e}) for s in members}
        before = gs.copy()
        if dropped & set().union(*vm):
            try:
                v = gs.to_vertexsetset()
            except (KeyError, ValueError, RuntimeError, IndexError):
                st.units += 1
                continue
            try:
                l = [sorted(map(repr, s)) for s in v]
            except Exception as x:
                l = "cannot be read: %r" % x
            fail("to_vertexsetset of %s without %s in the vertex universe: %s" % (f, dropped, l))
        v = gs.to_vertexsetset()
        e = gs.to_edgevertexsetset()
        cmp("to_vertexsetset of %s" % (f,), rd_v(v), vm)
        cmp("to_edgevertexsetset of %s" % (f,), rd_e(e), em)
        if not (before == gs) or L_masks_differ(L, gs, members):
            fail("converting changed the collection")
        if f[0] == "all":
            # documented shortcut
            cmp("EdgeVertexSetSet({})", rd_e(EdgeVertexSetSet({})), em)
            if not EdgeVertexSetSet({}) == e:
                fail("EdgeVertexSetSet({}) differs from all graphs converted")
        VS.append((v, vm))
        EV.append((e, em))
        st.tag(f[0])
        if 1 < len(vm) and len(em) < 1 << L.m:
            st.nontrivial = True
    # the vertex universe used by the conversion is the registered one
    if sorted(map(repr, VertexSetSet.universe())) != sorted(map(repr, vlabels)):
        fail("vertex universe %r" % (VertexSetSet.universe(),))
    for op, i, j, k in case["ops"] if not dropped else ():
        for kind, X, rd, uni in (("V", VS, rd_v, vlabels), ("E", EV, rd_e, list(L.lab) + list(L.E))):
            a, am = X[i]
            b, bm = X[j]
            what = "%s %s after conversion" % (kind, op)
            if op == "contains":
                for s in list(am)[:6] + list(bm)[:6]:
                    st.units += 1
                    if (set(s) in a) != (s in am):
                        fail("%s: %r" % (what, s))
            elif op in ("add", "discard"):
                if not bm:
                    continue
                s = sorted(bm, key=lambda s: sorted(map(repr, s)))[k % len(bm)]
                c = a.copy()
                getattr(c, op)(set(s))
                cmp(what, rd(c), am | {s} if op == "add" else am - {s})
                cmp(what + " (original)", rd(a), am)
            elif op in ("smaller", "larger", "graph_size"):
                cmp("%s %d" % (what, k), rd(getattr(a, op)(k)), model(op, am, bm, uni, k))
            elif op in ("minimal", "maximal"):
                cmp(what, rd(getattr(a, op)()), model(op, am, bm, uni, k))
            elif op in ("including", "excluding") and k % 2:
                x = uni[k % len(uni)]
                if isinstance(x, tuple) and ambiguous:
                    continue
                got = rd(getattr(a, op)(x))
                cmp("%s %r" % (what, x), got, {s for s in am if (x in s) == (op == "including")})
            else:
                cmp(what, rd(getattr(a, op)(b)), model(op, am, bm, uni, k))
        st.tag("then " + op)


def L_masks_differ(L, gs, members):
    return set(frozenset(L.E[L.idx[tuple(e)]] for e in gr) for gr in gs) != set(members)
_big.extend(globals(), ['conversion'])
