"""Graphs far too large to enumerate, against exact counting by an
independent dynamic program, the matrix-tree theorem and plain graph
algorithms."""
import itertools
import math
from fractions import Fraction

import dp
from core import fail
from difamilies import DFAM
from families import FAM, METHOD
from graphs import TRAV, DiLabelled, Labelled

ENTROPY = 500
RULE = ("a family with at least a thousand members on a universe of at least 18 edges (or, for conversions and vertex "
        "sets, 14 vertices) was counted independently; distinct by graph, labels, order and request")
BUDGET = {"quick": 2500, "thorough": 12000}
CPU_LIMIT = 90
MEM_GB = 3
TIMEOUT_OK = True       # a large diagram is slow, not wrong
WORK = 30000            # states the independent program may visit


def gen_big(src, tier, di=False):
    deep = tier == "thorough"
    shape = src.choice(["grid", "grid", "band", "band", "ladder", "path", "cycle", "star", "tree", "complete", "bip2",
                        "two", "wheel", "caterpillar"])
    if shape == "grid":
        r = src.int(3, 4 if not deep else 5)
        c = src.int(3, {3: 9, 4: 6, 5: 6}[r])
        n = r * c
        E = [(i, i + r) for i in range(n - r)] + [(i, i + 1) for i in range(n) if i % r < r - 1]
    elif shape == "band":
        n = src.int(10, 26)
        b = src.int(2, 3)
        E = [(i, j) for i in range(n) for j in range(i + 1, min(n, i + b + 1)) if j == i + 1 or src.chance(2, 3)]
    elif shape == "ladder":
        k = src.int(6, 25)
        n = 2 * k
        E = [(i, i + 2) for i in range(n - 2)] + [(2 * i, 2 * i + 1) for i in range(k)]
    elif shape == "path":
        n = src.choice([20, 40, 100, 257, 300, 700])
        E = [(i, i + 1) for i in range(n - 1)]
    elif shape == "cycle":
        n = src.choice([18, 40, 100, 300])
        E = [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
    elif shape == "star":
        n = src.choice([18, 30, 70, 130, 270])
        E = [(0, i) for i in range(1, n)]
    elif shape == "tree":
        n = src.int(18, 60)
        E = [(max(0, i - 1 - src.below(4)), i) for i in range(1, n)]
    elif shape == "caterpillar":
        k = src.int(6, 30)
        E, n = [(i, i + 1) for i in range(k - 1)], k
        for i in range(k):
            for _ in range(src.int(0, 2)):
                E.append((i, n))
                n += 1
    elif shape == "complete":
        n = src.int(5, 7)
        E = list(itertools.combinations(range(n), 2))
    elif shape == "bip2":
        k = src.int(6, 30)
        n = k + 2
        E = [(j, i) for i in range(2, n) for j in (0, 1)]
    elif shape == "two":
        k = src.int(4, 12)
        E = [(i, i + 1) for i in range(k)] + [(i, i + 2) for i in range(k - 1)]
        E += [(u + k + 1, v + k + 1) for u, v in E]
        n = 2 * k + 2
    else:
        n = src.int(9, 24)
        k = n - 1
        E = [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, k)] + [(1, k)]
    E = sorted({(min(u, v), max(u, v)) for u, v in E}, key=lambda e: (e[1], e[0]))
    if di:
        out = []
        for u, v in E:
            w = src.below(4)
            out += [(u, v), (v, u)] if w == 3 else [(u, v)] if w < 2 else [(v, u)]
        E = out
    if shape in ("grid", "ladder", "band") and src.chance(1, 4):
        E = [e for e in E if not src.chance(1, 8)]
        used = sorted({v for e in E for v in e})
        m = {v: i for i, v in enumerate(used)}
        n, E = len(used), [(m[u], m[v]) for u, v in E]
    g = dict(n=n, edges=E, shape=shape)
    # how it is written down: natural order or reversed, every orientation
    seq = list(range(len(E)))
    if src.chance(1, 2):
        seq.reverse()
    # orders that keep the frontier narrow
    trav = src.choice(TRAV) if shape not in ("complete", "wheel", "bip2") else "as-is"
    if trav in ("bfs", "dfs", "greedy") and src.chance(1, 2):
        seq = src.shuffle(seq)
    if trav == "dfs" and shape in ("grid", "band", "ladder", "two", "cycle") and len(E) > 24:
        trav = "bfs"
    g.update(seq=seq, flip=src.bits(len(E)) if not di else 0, kind=src.choice(["int1", "int0", "v", "tuple", "scatter"]),
             trav=trav, src=src.int(-1, min(n - 1, 3)) if trav == "bfs" or trav == "dfs" else -1)
    return g


class Big(Labelled):
    def __init__(self, g):
        n = self.n = g["n"]
        k = g["kind"]
        self.lab = [i + 1 if k == "int1" else i if k == "int0" else "v%d" % i if k == "v" else
                    (i % 7, i // 7) if k == "tuple" else (i * 389 + 11) % 1009 for i in range(n)]
        self.edges = [tuple(e) for e in g["edges"]]
        f = g["flip"]
        self.E = [(self.lab[v], self.lab[u]) if f >> i & 1 else (self.lab[u], self.lab[v])
                  for i, (u, v) in enumerate(self.edges)]
        self.m = len(self.E)
        self.inv = {l: i for i, l in enumerate(self.lab)}
        self.idx = {}
        for i, (u, v) in enumerate(self.E):
            self.idx[(u, v)] = i
            self.idx.setdefault((v, u), i)
        self.trav = g["trav"]
        self.source = None if g["src"] < 0 else self.lab[g["src"] % n]
        self.order = [self.E[i] for i in g["seq"]]

    def set_universe(self, G):
        G.set_universe(list(self.order), traversal=self.trav, source=self.source)


UND = ["graphs", "graphs", "connected_components", "steiner_subgraphs", "steiner_trees", "steiner_cycles",
       "steiner_paths", "trees", "trees", "forests", "cycles", "cycles", "paths", "paths", "matchings",
       "perfect_matchings", "k_matchings", "k_factors", "b_matchings", "f_factors", "regular_graphs",
       "bipartite_graphs", "degree_distribution_graphs", "partitions", "induced", "winduced", "reliability",
       "cliques", "bicliques", "vertexsets", "conversion", "spanning"]
DIR = list(DFAM) + ["directed_cycles", "directed_st_paths", "rooted_trees", "rooted_forests"]


def gen(src, tier, di=None, name=None):
    if name is None:
        di = src.chance(1, 4)
        name = src.choice(DIR if di else UND)
    g = gen_big(src, tier, di)
    c = dict(di=int(di), g=g, f=name)
    n, m = g["n"], len(g["edges"])
    gg = dict(n=n, edges=g["edges"])
    if name == "reliability":
        c["a"] = src.sample(range(n), src.int(2, 5))
    elif name == "partitions":
        lo = src.int(1, 4)
        c["a"] = src.weighted([(2, None), (1, [lo, lo + src.int(0, 2)]), (1, [lo, n]), (1, [max(1, n - lo), n])])
    elif name == "winduced":
        w = [src.int(0, 6) for _ in range(n)]
        lo = src.int(0, 3 * n)
        c["a"] = [w, lo, lo + src.int(0, 2 * n)]
    elif name == "cliques":
        c["a"] = src.int(2, 4)
    elif name == "bicliques":
        c["a"] = src.int(1, 3)
    elif name == "vertexsets":
        c["a"] = src.choice(["independent_sets", "vertex_covers", "dominating_sets", "cliques"])
    elif name == "conversion":
        c["a"] = src.choice(["matchings", "paths"])
    elif name == "induced":
        c["a"] = None
    elif name == "spanning":
        c["a"] = [src.int(-1, n - 1), src.int(1, 3)]
    else:
        a = (DFAM if di else FAM)[name][0](src, gg)
        if name == "graphs" and not di:
            a.pop("lc", None)
            if "ne" in a and not isinstance(a["ne"], int):
                a["ne"] = a["ne"][:2] + [1]
        if name == "degree_distribution_graphs":
            if g["shape"] in ("path", "cycle") and src.chance(2, 3):
                # counts beyond small integers
                k = src.int(1, min(3, n // 2 - 1))
                z = n - 2 * k - src.int(0, 2)
                a = [[[0, z], [1, 2 * k], [2, n - z - 2 * k]], src.below(2)]
                if src.chance(1, 2):
                    a[0][src.choice([0, 2])][1] = -1
            else:
                a = [[list(p) for p in a[0] if p[0] < 5] or [[0, -1], [1, -1]], a[1]]
                if all(x >= 0 for _, x in a[0]):
                    a[0][src.below(len(a[0]))][1] = -1
                for p in a[0]:
                    if p[1] > 6:
                        p[1] = -1
            a[0] = [list(p) for p in a[0]]
        c["a"] = a
    big = m > 120
    c["cost"] = None if big else src.choice([None, "r"])
    if c["cost"]:
        c["cost"] = [src.int(0, 3) for _ in range(m)]
    c["w"] = [src.int(-5, 9) for _ in range(m)]
    c["p"] = [src.choice([0.5, 0.9, 0.25, 0.05, 1.0, 0.0]) for _ in range(m)] if src.chance(1, 2) else [0.5] * m
    c["e"] = src.below(m)
    c["post"] = src.shuffle(["sizes", "incl", "algebra", "minmax", "rand", "prob", "comp", "io"])[:3]
    return c


def _path(n, f, a, closed=False, post=("minmax", "rand"), kind="int1"):
    E = [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if closed else [])
    m = len(E)
    return dict(di=0, f=f, a=a, cost=None, w=[i % 7 - 2 for i in range(m)], p=[0.5] * m, e=m // 3, post=list(post),
                g=dict(n=n, edges=E, shape="cycle" if closed else "path", seq=list(range(m)), flip=0, kind=kind,
                       trav="as-is", src=-1))


FIXED = [_path(300, "paths", [[0, 299], 1]), _path(300, "paths", [[7, 250], 0]), _path(258, "paths", [[0, 257], 1]),
         _path(300, "cycles", 1, True), _path(300, "matchings", [], post=["rand", "sizes"]),
         _path(300, "degree_distribution_graphs", [[[0, 296], [1, 2], [2, 2]], 0]),
         _path(300, "degree_distribution_graphs", [[[0, 299], [1, 0], [2, 1]], 1]),
         _path(300, "degree_distribution_graphs", [[[0, 40], [1, 2], [2, 258]], 1]),
         _path(300, "degree_distribution_graphs", [[[0, 297], [1, 2], [2, 1]], 1], True),
         dict(_path(400, "graphs", {"vg": [[]] * 140}, post=["rand"]), work=500000), _path(300, "partitions", [130, 140], post=[]),
         _path(300, "partitions", [130, 140], True, post=[]), _path(300, "conversion", "matchings", post=[]),
         _path(300, "conversion", "paths", True, post=[]), _path(300, "regular_graphs", [1, 1], True, post=["rand"]),
         _path(300, "regular_graphs", [[1, 2], 1], True, post=["rand"]), _path(300, "forests", [[0, 150], 0], True, post=["rand"]),
         _path(300, "trees", [40, 0], True, post=["rand"]), _path(300, "induced", None, True, post=[]),
         _path(300, "winduced", [[1 + i % 3 for i in range(300)], 250, 270], True, post=[])]
for _a in (["rooted_forests", [None, 0]], ["rooted_forests", [[0, 270], 0]], ["rooted_forests", [[3], 0]], ["rooted_trees", [20, 0]],
           ["directed_cycles", None], ["directed_hamiltonian_cycles", None], ["directed_st_paths", [20, 19, 0]],
           ["directed_st_paths", [20, 290, 0]], ["directed_st_paths", [20, 19, 1]], ["graphs", {"in": [[0, [1, 2, 1]]], "out": [[299, 1]]}]):
    for _b in (0, 1):
        _c = _path(300, _a[0], _a[1], True, post=["rand"])
        _c["di"] = 1
        _c["g"]["edges"] = [(i, (i + 1) % 300) for i in range(300)]
        if _b:      # both directions
            _c["g"]["edges"] = [(u, v)[::k] for u, v in _c["g"]["edges"] for k in (1, -1)]
        _c["g"]["seq"] = list(range(len(_c["g"]["edges"])))
        for _k in "wp":
            _c[_k] = (_c[_k] * 2)[:len(_c["g"]["edges"])]
        FIXED.append(_c)


def det(M):
    """Exact determinant (Bareiss)."""
    M = [list(r) for r in M]
    n = len(M)
    sign, prev = 1, 1
    for k in range(n - 1):
        if M[k][k] == 0:
            for i in range(k + 1, n):
                if M[i][k]:
                    M[k], M[i] = M[i], M[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[-1][-1] if n else 1


def members(L, it, k):
    return [L.mask(g) for g in itertools.islice(it, k)]


def run(case, st):
    from graphillion import DiGraphSet, GraphSet
    G = DiGraphSet if case["di"] else GraphSet
    g = case["g"]
    L = Big(g)
    if case["di"]:
        L.idx = {e: i for i, e in enumerate(L.E)}
    L.set_universe(G)
    n, m, edges = L.n, L.m, L.edges
    name, a = case["f"], case["a"]
    what = "%s(%r) on %s of %d vertices, %d edges" % (name, a, g["shape"], n, m)
    st.tag(name if not case["di"] else "di:" + name)
    special = {"reliability": reliability, "partitions": parts, "induced": induced, "winduced": induced,
               "cliques": cliques, "bicliques": cliques, "vertexsets": vertexsets, "conversion": conversion,
               "spanning": spanning}.get(name)
    if special:
        special(case, st, L, what)
        return
    cost = case["cost"] or ([1] * m if m <= 120 else [0] * m)
    if name == "graphs" and not case["di"]:
        spec = dp.make(name, n, a)
        if "ne" in a:
            if m > 120:
                return
            cost = [1] * m
    elif case["di"]:
        spec = dp.make_di(name, n, a)
    else:
        spec = dp.make(name, n, a)
    R = dp.solve(n, edges, spec, cost, case["w"], case["p"], limit=case.get("work", WORK))
    if R is None:
        st.tag("beyond the oracle")
        return
    call = (DFAM if case["di"] else FAM)[name][1]
    gs = call(getattr(G, name if case["di"] else METHOD[name]), L, a)
    st.units += 1
    ln = gs.len()
    if name == "graphs" and not case["di"] and "ne" in a:
        r = a["ne"]
        ks = [r] if isinstance(r, int) else list(range(*r))
        want = sum(R.poly[k] for k in ks if k < len(R.poly))
        if ln != want:
            fail("%s: %d members, %d counted" % (what, ln, want))
        if want >= 1000:
            st.nontrivial = True
        return
    if ln != R.count:
        fail("%s: %d members, %d counted" % (what, ln, R.count))
    if ln >= 1000 and m >= 18:
        st.nontrivial = True
    check_members(case, st, L, G, gs, spec, R, cost, what)


def check_members(case, st, L, G, gs, spec, R, cost, what):
    n, m, edges = L.n, L.m, L.edges
    ln = gs.len()
    e = case["e"]
    for post in case["post"]:
        st.units += 1
        if post == "sizes" and m <= 120:
            mx = len(R.poly) - 1
            cuts = sorted({0, 1, max(0, mx // 2), max(0, mx), mx + 1})
            if case["cost"]:
                cd = dict(zip(L.E, cost))
                for b in cuts:
                    for f, want in ((gs.cost_le, sum(R.poly[:b + 1])), (gs.cost_ge, sum(R.poly[b:])),
                                    (gs.cost_eq, R.poly[b] if 0 <= b <= mx else 0)):
                        x = f(cd, b).len()
                        if x != want:
                            fail("%s: %s(%r, %d) keeps %d, %d counted" % (what, f.__name__, cd, b, x, want))
            else:
                for b in cuts:
                    for nm, want in (("smaller", sum(R.poly[:b])), ("larger", sum(R.poly[b + 1:])),
                                     ("graph_size", R.poly[b] if 0 <= b <= mx else 0)):
                        x = getattr(gs, nm)(b).len()
                        if x != want:
                            fail("%s: %s(%d) has %d members, %d counted" % (what, nm, b, x, want))
        elif post == "incl":
            q = dp.solve(n, edges, spec, [0] * m, forced={e: 1}, limit=WORK)
            if q is not None:
                x, y = gs.including(L.E[e]).len(), gs.excluding(L.E[e]).len()
                if (x, y) != (q.count, R.count - q.count):
                    fail("%s: %d include and %d exclude %r, counted %d and %d" % (
                        what, x, y, L.E[e], q.count, R.count - q.count))
        elif post == "algebra":
            h = G({"include": [L.E[e]]})
            i, u, d, y = gs & h, gs | h, gs - h, gs ^ h
            hl = 1 << m - 1
            il = gs.including(L.E[e]).len()
            got = (h.len(), i.len(), u.len(), d.len(), y.len(), (h - gs).len())
            want = (hl, il, ln + hl - il, ln - il, ln + hl - 2 * il, hl - il)
            if got != want:
                fail("%s: sizes of h, &, |, -, ^, reversed - with all sets including %r are %r, expected %r" % (
                    what, L.E[e], got, want))
            if not (i <= gs <= u and d.isdisjoint(h) and (i | d) == gs and (u - y) == i):
                fail("%s: comparisons of derived collections contradict set algebra" % what)
        elif post == "minmax" and ln:
            w = dict(zip(L.E, case["w"]))
            for nm, best, sg in (("min_iter", R.mn, 1), ("max_iter", R.mx, -1)):
                ms = members(L, getattr(gs, nm)(w), 6)
                vals = [sum(case["w"][i] for i in range(m) if x >> i & 1) for x in ms]
                if not vals or vals[0] != best or any(sg * p > sg * q for p, q in zip(vals, vals[1:])):
                    fail("%s: %s starts with total weights %r, the best is %r" % (what, nm, vals, best))
                if len(ms) != min(6, ln) or len(set(ms)) != len(ms) or not all(dp.contains(n, edges, spec, x) for x in ms):
                    fail("%s: %s yields a wrong or repeated member among %r" % (what, nm, [L.graph(x) for x in ms]))
        elif post == "rand" and ln:
            ms = members(L, gs.rand_iter(), 4) + members(L, iter(gs), 4)
            for x in ms:
                if not dp.contains(n, edges, spec, x):
                    fail("%s: iteration yields %r" % (what, L.graph(x)))
                if L.graph(x) not in gs:
                    fail("%s: does not contain its member %r" % (what, L.graph(x)))
                y = x ^ 1 << e
                if (L.graph(y) in gs) != dp.contains(n, edges, spec, y):
                    fail("%s: membership of %r is wrong" % (what, L.graph(y)))
            x = L.graph(ms[0])
            c = gs.copy()
            c.remove(x)
            if c.len() != ln - 1 or x in c or gs.len() != ln:
                fail("%s: removing a member from a copy leaves %d of %d" % (what, c.len(), ln))
        elif post == "prob":
            p = dict(zip(L.E, case["p"]))
            x = gs.probability(p)
            if abs(x - R.prob) > 1e-9 * max(abs(x), abs(R.prob)) + 1e-300:
                fail("%s: probability %r, computed %r" % (what, x, R.prob))
        elif post == "comp" and m <= 300:
            c = ~gs
            if c.len() != (1 << m) - ln or not c.isdisjoint(gs) or ~c != gs:
                fail("%s: the complement has %d members, %d expected" % (what, c.len(), (1 << m) - ln))
            f = gs.complement()
            if f.len() != ln or f.complement() != gs:
                fail("%s: complementing every member gives %d members" % (what, f.len()))
        elif post == "io":
            s = gs.dumps()
            r = G.loads(s)
            if r != gs or r.len() != ln:
                fail("%s: %d members after saving and restoring" % (what, r.len()))


def reliability(case, st, L, what):
    from graphillion import GraphSet
    s = dp.make("steiner_subgraphs", L.n, case["a"])
    R = dp.solve(L.n, L.edges, any_connected(case["a"]), [0] * L.m, prob=case["p"], limit=WORK)
    if R is None:
        return st.tag("beyond the oracle")
    st.units += 1
    x = GraphSet.reliability(dict(zip(L.E, case["p"])), [L.lab[v] for v in case["a"]])
    if abs(x - R.prob) > 1e-9:
        fail("%s: reliability %r, computed %r" % (what, x, R.prob))
    st.nontrivial = L.m >= 18 and 0 < R.prob < 1
    gs = GraphSet.connected_components([L.lab[v] for v in case["a"]])
    C = dp.solve(L.n, L.edges, s, [0] * L.m, limit=WORK)
    if C is not None and gs.len() != C.count:
        fail("%s: connected_components has %d members, %d counted" % (what, gs.len(), C.count))


def any_connected(T):
    """The terminals are connected; anything else may happen elsewhere."""
    s = dp.Spec()
    full = (1 << len(T)) - 1
    s.mask = {v: 1 << i for i, v in enumerate(T)}
    s.comp = lambda e, mask, sc: sc if mask in (0, full) else None
    return s


def parts(case, st, L, what):
    from graphillion import GraphSet
    P = dp.partitions(L.n, L.edges, limit=WORK // 2)
    if P is None:
        return st.tag("beyond the oracle")
    st.units += 1
    if case["a"] is None:
        gs, lo, hi = GraphSet.partitions(), 1, L.n
    else:
        lo, hi = case["a"]
        gs = GraphSet.partitions(num_comp_lb=lo, num_comp_ub=hi)
    want = sum(c for k, c in P.items() if lo <= k <= hi)
    if gs.len() != want:
        fail("%s: %d members, %d counted" % (what, gs.len(), want))
    k = min(hi, 3)
    bal = GraphSet.balanced_partitions(num_comps=k)
    if bal.len() != P.get(k, 0):
        fail("%s: balanced_partitions(num_comps=%d) has %d members, %d counted" % (what, k, bal.len(), P.get(k, 0)))
    st.nontrivial = want >= 1000 and L.m >= 18


def induced(case, st, L, what):
    from graphillion import GraphSet
    w, lo, hi = case["a"] or (None, 0, 0)
    C = dp.connected_sets(L.n, L.edges, list(range(L.n)), w, limit=WORK)
    if C is None:
        return st.tag("beyond the oracle")
    st.units += 1
    if w is None:
        gs = GraphSet.induced_graphs()
        want = sum(C.values())
    else:
        gs = GraphSet.weighted_induced_graphs(weight_list={L.lab[v]: x for v, x in enumerate(w)}, lower=lo, upper=hi)
        want = sum(c for k, c in C.items() if lo <= k <= hi)
    if gs.len() != want:
        fail("%s: %d members, %d counted" % (what, gs.len(), want))
    st.nontrivial = want >= 1000 and L.m >= 18


def cliques(case, st, L, what):
    from graphillion import GraphSet
    k = case["a"]
    adj = [set() for _ in range(L.n)]
    for u, v in L.edges:
        adj[u].add(v)
        adj[v].add(u)
    if case["f"] == "cliques":
        want = 0
        stack = [(1, [v for v in adj[u] if v > u]) for u in range(L.n)]
        while stack:
            d, cand = stack.pop()
            if d == k:
                want += 1
                continue
            for i, v in enumerate(cand):
                stack.append((d + 1, [x for x in cand if x > v and x in adj[v]]))
        gs = GraphSet.cliques(k)
    else:
        if L.n > 40 and k > 1 or k == 3 and L.n > 20:
            return
        if math.comb(L.n, k) > 12000:
            return
        want = 0
        for A in itertools.combinations(range(L.n), k):
            common = set.intersection(*[adj[u] for u in A])
            want += math.comb(len(common), k)
        if want % 2:
            raise AssertionError
        want //= 2
        gs = GraphSet.bicliques(k, k)
    st.units += 1
    if gs.len() != want:
        fail("%s: %d members, %d counted" % (what, gs.len(), want))
    st.nontrivial = L.m >= 18 and want > 3


def vertexsets(case, st, L, what):
    from graphillion import GraphSet, VertexSetSet
    kind = case["a"]
    ed = list(L.E)
    if kind == "cliques":
        adj = [set() for _ in range(L.n)]
        for u, v in L.edges:
            adj[u].add(v)
            adj[v].add(u)
        C = {0: 1}
        stack = [(1, [v for v in adj[u] if v > u]) for u in range(L.n)]
        while stack:
            d, cand = stack.pop()
            C[d] = C.get(d, 0) + 1
            for v in cand:
                stack.append((d + 1, [x for x in cand if x > v and x in adj[v]]))
    else:
        C = dp.vertex_sets(L.n, L.edges, list(range(L.n)), kind, limit=WORK)
        if C is None:
            return st.tag("beyond the oracle")
    if kind == "cliques" and L.n > 30 or kind == "dominating_sets" and L.n > 60 or L.n > 320:
        return
    vs = getattr(VertexSetSet, kind)(ed)
    st.units += 1
    if vs.len() != sum(C.values()):
        fail("%s: %d vertex sets, %d counted" % (what, vs.len(), sum(C.values())))
    mx = max(C)
    for k in sorted({0, 1, mx // 2, mx, min(C)}):
        got = (vs.smaller(k).len(), vs.larger(k).len(), vs.graph_size(k).len() if hasattr(vs, "graph_size") else None)
        want = (sum(c for j, c in C.items() if j < k), sum(c for j, c in C.items() if j > k), C.get(k, 0))
        if got[:2] != want[:2] or got[2] not in (None, want[2]):
            fail("%s: smaller, larger, exactly %d are %r, counted %r" % (what, k, got, want))
    if kind in ("independent_sets", "vertex_covers") and case["e"] % 2:
        o = VertexSetSet.vertex_covers(ed) if kind == "independent_sets" else VertexSetSet.independent_sets(ed)
        if vs.complement() != o:
            fail("%s: complements of independent sets are not the vertex covers" % what)
    b = next(vs.max_iter()) if kind != "vertex_covers" and kind != "dominating_sets" else next(vs.min_iter())
    if len(b) != (mx if kind in ("independent_sets", "cliques") else min(C)):
        fail("%s: the best member has %d vertices" % (what, len(b)))
    st.nontrivial = L.n >= 14 and sum(C.values()) >= 1000 or kind == "cliques" and L.m >= 18


def conversion(case, st, L, what):
    """Two matchings have the same vertices iff ...: the number of different
    end point sets is counted by a program over vertices."""
    from graphillion import GraphSet
    if case["a"] == "paths":
        s, t = 0, L.n - 1
        gs = GraphSet.paths(L.lab[s], L.lab[t])
        ev = gs.to_edgevertexsetset() if hasattr(gs, "to_edgevertexsetset") else None
    else:
        gs = GraphSet.perfect_matchings() if case["e"] % 2 else GraphSet.matchings()
        if L.m > 60:
            return
        ev = gs.to_edgevertexsetset() if hasattr(gs, "to_edgevertexsetset") else None
    ln = gs.len()
    if ln > 200000000:
        return
    vs = gs.to_vertexsetset()
    st.units += 1
    if ev is not None and ev.len() != ln:
        fail("%s: %d members become %d edge-vertex sets" % (what, ln, ev.len()))
    if case["a"] == "paths":
        for x in itertools.islice(gs.rand_iter(), 5):
            v = {y for e in x for y in e}
            if v not in vs:
                fail("%s: the vertices of a member are missing: %r" % (what, x))
        for v in itertools.islice(vs.rand_iter(), 5):
            if len(v) < 2 or L.lab[0] not in v or L.lab[L.n - 1] not in v:
                fail("%s: %r is no vertex set of a path between the terminals" % (what, v))
        # lengths are kept: members by size against vertex sets by size
        for k in (1, 2, 3, 5, 8):
            if (gs.graph_size(k).len() == 0) != (vs.graph_size(k + 1).len() == 0):
                fail("%s: paths with %d edges and vertex sets of %d vertices disagree" % (what, k, k + 1))
    else:
        for v in itertools.islice(vs.rand_iter(), 5):
            v = {L.inv[x] for x in v}
            sub = [e for e in L.edges if e[0] in v and e[1] in v]
            s2 = dp.degs(lambda x: (1,) if x in v else (0,))()
            R = dp.solve(L.n, L.edges, s2, [0] * L.m, limit=WORK)
            if R is not None and R.count == 0:
                fail("%s: the vertex set %r has no perfect matching %r" % (what, v, sub))
        for x in itertools.islice(gs.rand_iter(), 5):
            v = {y for e in x for y in e}
            if v not in vs:
                fail("%s: the vertices of a member are missing: %r" % (what, x))
        sizes = [gs.graph_size(k).len() for k in range(L.n // 2 + 1)]
        for k, s in enumerate(sizes):
            t = vs.graph_size(2 * k).len()
            if t > s or (t == 0) != (s == 0) or k == 1 and t != s:
                fail("%s: %d matchings of %d edges have %d vertex sets" % (what, s, k, t))
    st.nontrivial = ln >= 1000 and L.m >= 18


def spanning(case, st, L, what):
    """Matrix-tree theorems: spanning trees, forests with given roots and
    (for the best one) Kruskal's algorithm."""
    from graphillion import GraphSet
    n = L.n
    if n > 60:
        return
    lap = [[0] * n for _ in range(n)]
    for u, v in L.edges:
        lap[u][u] += 1
        lap[v][v] += 1
        lap[u][v] -= 1
        lap[v][u] -= 1
    r, k = case["a"]
    gs = GraphSet.trees(is_spanning=True) if r < 0 else GraphSet.trees(root=L.lab[r], is_spanning=True)
    want = det([row[1:] for row in lap[1:]])
    st.units += 1
    if gs.len() != want:
        fail("%s: %d spanning trees, the matrix-tree theorem gives %d" % (what, gs.len(), want))
    roots = [(case["e"] + 3 * i) % n for i in range(k)]
    roots = list(dict.fromkeys(roots))
    keep = [v for v in range(n) if v not in roots]
    fs = GraphSet.forests([L.lab[v] for v in roots], is_spanning=True)
    want2 = det([[lap[i][j] for j in keep] for i in keep])
    if fs.len() != want2:
        fail("%s: %d spanning forests rooted at %r, the matrix-tree theorem gives %d" % (what, fs.len(), roots, want2))
    if want:
        for sg, f in ((1, gs.min_iter), (-1, gs.max_iter)):
            par = list(range(n))

            def find(x):
                while par[x] != x:
                    x = par[x]
                return x
            best = 0
            for i in sorted(range(L.m), key=lambda i: sg * case["w"][i]):
                u, v = find(L.edges[i][0]), find(L.edges[i][1])
                if u != v:
                    par[u] = v
                    best += case["w"][i]
            t = L.mask(next(f(dict(zip(L.E, case["w"])))))
            got = sum(case["w"][i] for i in range(L.m) if t >> i & 1)
            if got != best:
                fail("%s: %s starts at %r, Kruskal finds %r" % (what, f.__name__, got, best))
    st.nontrivial = want >= 1000 and L.m >= 18
