"""Probabilities and reliabilities against exact rational sums."""
from fractions import Fraction

import numpy as np

from classes import CLASSES, Cls, gen_members, gen_universe, universe_size
from core import fail
from graphs import Labelled, Oracle, gen_graph, labels
from props import _big

ENTROPY = 500
RULE = ("a probability or reliability strictly between 0 and 1, of a family of at least three members or of a graph "
        "with at least five edges and two terminals; distinct by universe, family or terminals, and probabilities")
BUDGET = {"quick": 14000, "thorough": 300000}
KINDS = ["half", "mixed", "mixed", "ends", "tiny", "one", "zero", "fine"]


def gen_probs(src, n):
    k = src.choice(KINDS)
    r = []
    for _ in range(n):
        if k == "half":
            x = 0.5
        elif k == "mixed":
            x = src.byte() / 255
        elif k == "ends":
            x = src.choice([0.0, 1.0, 1.0, 0.25, 0.9])
        elif k == "tiny":
            x = src.choice([1e-6, 1 - 1e-6, 1e-3, 0.5])
        elif k == "one":
            x = 1.0
        elif k == "zero":
            x = 0.0 if src.chance(3, 4) else 0.5
        else:
            x = (src.byte() * 256 + src.byte()) / 65535
        r.append(x)
    return r


def gen(src, tier):
    kind = src.choice(["prob", "prob", "rel", "rel", "big", "cyl"])
    if kind == "prob":
        u = gen_universe(src, nmax=src.choice([3, 6, 9]))
        n = universe_size(u)
        return dict(k="prob", u=u, f=gen_members(src, u, 0, src.choice([3, 8, 30])),
                    q=[[gen_probs(src, n), src.below(4)] for _ in range(src.int(1, 3))], full=src.below(8))
    if kind == "cyl":
        n = src.int(5, 120)
        return dict(k="cyl", cls=src.choice(["setset", "GraphSet", "DiGraphSet", "VertexSetSet"]), n=n,
                    inc=src.sample(range(n), src.int(0, 4)), exc=src.sample(range(n), src.int(0, 4)),
                    size=src.choice([None, None, src.int(0, 6)]), p=gen_probs(src, n), neg=src.chance(1, 4))
    if kind == "rel":
        g = gen_graph(src, tier, nmax=7, mmax=11)
        m = len(g["edges"])
        q = [[gen_probs(src, m), src.sample(range(g["n"]), src.int(0, g["n"])) if src.chance(1, 3) else
              src.sample(range(g["n"]), src.int(1, 3)), src.below(4), src.subset(range(m), 1, 8)]
             for _ in range(src.int(1, 4))]
        return dict(k="rel", g=g, q=q)
    # ladders and thin grids, a random part of the edges removed
    r, c = src.choice([(2, 9), (2, 15), (3, 5), (3, 8), (4, 5), (1, 20)])
    E = [(i * c + j, i * c + j + 1) for i in range(r) for j in range(c - 1)]
    E += [(i * c + j, i * c + c + j) for i in range(r - 1) for j in range(c)]
    if src.chance(1, 2):
        E = [e for e in E if not src.chance(1, 6)] or E
    used = sorted({v for e in E for v in e})
    mp = {v: i for i, v in enumerate(used)}
    E = [[mp[a], mp[b]] if src.chance(1, 2) else [mp[b], mp[a]] for a, b in E]
    n = len(used)
    # pieces of the order are swapped, so that the frontier stays moderate
    if src.chance(1, 2):
        for _ in range(src.int(1, 6)):
            i = src.below(max(1, len(E) - 1))
            E[i:i + 2] = E[i:i + 2][::-1]
    g = dict(n=n, edges=E, kind=src.choice(["int1", "strnum", "tuple"]), trav=src.choice(["greedy", "bfs", "dfs"]),
             src=src.int(-1, n - 1))
    return dict(k="big", g=g, q=[[gen_probs(src, len(E)), src.sample(range(n), src.int(1, 5)), 0, []]])


def expect(masks, p, n):
    tot = Fraction(0)
    for x in masks:
        t = Fraction(1)
        for i in range(n):
            t *= Fraction(p[i]) if x >> i & 1 else 1 - Fraction(p[i])
        tot += t
    return tot


def close(got, want, what):
    if not isinstance(got, float) and not isinstance(got, int) or abs(got - float(want)) > 1e-9:
        fail("%s is %r, exactly %.12f expected" % (what, got, float(want)))


def reliability_dp(n, edges, p, terms):
    """Exact reliability by growing connectivity of the live vertices."""
    if len(set(terms)) <= 1:
        return 1.0
    # an edge order with a small frontier: by the larger end in BFS order
    adj = [[] for _ in range(n)]
    for u, v in edges:
        adj[u].append(v)
        adj[v].append(u)
    order = {}
    for s in range(n):
        if s in order:
            continue
        q = [s]
        order[s] = len(order)
        for x in q:
            for y in adj[x]:
                if y not in order:
                    order[y] = len(order)
                    q.append(y)
    idx = sorted(range(len(edges)), key=lambda i: (max(order[edges[i][0]], order[edges[i][1]]),
                                                   min(order[edges[i][0]], order[edges[i][1]])))
    last = {}
    for k, i in enumerate(idx):
        for v in edges[i]:
            last[v] = k
    T = set(terms)
    for v in range(n):
        if v not in last and v in T:
            return 0.0
    # state: ({live vertex: component}, components holding a terminal, finished?)
    states = {((), frozenset(), False): 1.0}
    for k, i in enumerate(idx):
        u, v = edges[i]
        nxt = {}
        for (lab, term, done), w in states.items():
            lab = dict(lab)
            tset = set(term)
            for x in (u, v):
                if x not in lab:
                    lab[x] = x
                    if x in T:
                        tset.add(x)
            for take, pr in ((0, 1 - p[i]), (1, p[i])):
                if pr == 0:
                    continue
                l, t, d = dict(lab), set(tset), done
                if take and l[u] != l[v]:
                    a, b = l[u], l[v]
                    for x in l:
                        if l[x] == b:
                            l[x] = a
                    if b in t:
                        t.discard(b)
                        t.add(a)
                dead = False
                for x in (u, v):
                    if last[x] == k and x in l:
                        cpt = l.pop(x)
                        if cpt in t and cpt not in l.values():
                            # a terminal component leaves: it must hold all terminals
                            t.discard(cpt)
                            if d or t or any(y in T and y not in lab and last[y] > k for y in T):
                                dead = True
                            d = True
                if dead or (d and t):
                    continue
                names = {}
                key = tuple((x, names.setdefault(l[x], len(names))) for x in sorted(l))
                tt = frozenset(names[c] for c in t)
                s = (key, tt, d)
                nxt[s] = nxt.get(s, 0.0) + w * pr
        # relabel to plain numbers that cannot clash with vertices
        states = {}
        for (key, tt, d), w in nxt.items():
            rep = {}
            for x, c in key:
                rep.setdefault(c, x)
            s = (tuple((x, rep[c]) for x, c in key), frozenset(rep[c] for c in tt), d)
            states[s] = states.get(s, 0.0) + w
    return sum(w for (_, _, d), w in states.items() if d)


def run(case, st):
    st.tag(case["k"])
    if case["k"] == "prob":
        K = Cls(case["u"])
        fam = set(case["f"])
        if case["full"] == 7 and K.name != "EdgeVertexSetSet" and K.n <= 8:
            c, fam = ~K.make(case["f"]), set(range(1 << K.n)) - fam
        else:
            c = K.make(case["f"])
        for p, style in case["q"]:
            ids = range(K.n) if style & 1 else range(K.n - 1, -1, -1)
            d = {K.elem(i, 4 if style & 2 and K.name in ("GraphSet", "EdgeVertexSetSet") else 0): p[i] for i in ids}
            keep = dict(d)
            got = c.probability(d)
            want = expect(fam, p, K.n)
            st.units += 1
            close(got, want, "%s.probability(%r) of %d members such as %r" % (
                K.name, [(K.elems[i], p[i]) for i in range(K.n)][:10], len(fam), K.show(fam)))
            if d != keep or K.read(c) != fam:
                fail("probability changes its arguments")
            if len(fam) >= 3 and 0 < want < 1:
                st.nontrivial = True
        st.tag("class " + K.name)
        return
    if case["k"] == "cyl":
        import graphillion
        n, cls = case["n"], case["cls"]
        C = getattr(graphillion, cls)
        el = [(i, i + 1) for i in range(n)] if cls in ("GraphSet", "DiGraphSet") else list(range(1, n + 1))
        C.set_universe(el)
        inc = set(case["inc"])
        exc = set(case["exc"]) - inc
        conv = set if cls == "setset" else list
        c = C({"include": conv([el[i] for i in inc]), "exclude": conv([el[i] for i in exc])})
        p = case["p"]
        dist = {0: Fraction(1)}
        for i in range(n):
            q = Fraction(p[i])
            nd = {}
            for k, v in dist.items():
                if i not in exc:
                    nd[k + 1] = nd.get(k + 1, 0) + v * q
                if i not in inc:
                    nd[k] = nd.get(k, 0) + v * (1 - q)
            # the numbers are kept short; 1e-30 is far below the tolerance
            dist = {k: (v if v.denominator < 1 << 200 else Fraction(round(v * 10 ** 30), 10 ** 30)) for k, v in nd.items()}
        if case["size"] is not None:
            c = c.set_size(case["size"]) if cls == "setset" else c.graph_size(case["size"])
            want = dist.get(case["size"], Fraction(0))
        else:
            want = sum(dist.values())
        if case["neg"]:
            c, want = ~c, 1 - want
        st.units += 1
        close(c.probability({el[i]: p[i] for i in range(n)}), want,
              "%s.probability over %d elements (include %r, exclude %r, size %r, complemented %s)" % (
                  cls, n, sorted(inc), sorted(exc), case["size"], case["neg"]))
        if 0 < want < 1:
            st.nontrivial = True
        return
    from graphillion import GraphSet
    g = case["g"]
    L = Labelled(g)
    L.set_universe(GraphSet)
    O = Oracle(L.n, L.edges) if case["k"] == "rel" else None
    for p, terms, style, missing in case["q"]:
        p = [float(x) for x in p]
        for i in missing:
            p[i] = 1.0              # an edge without a probability never fails
        d = {}
        for i in (range(L.m) if style & 1 else range(L.m - 1, -1, -1)):
            if i not in missing:
                u, v = L.E[i]
                d[(v, u) if style & 2 else (u, v)] = p[i]
        keep = dict(d)
        ts = [L.lab[v] for v in terms]
        got = GraphSet.reliability(d, ts)
        if O is not None:
            ok = np.ones(O.N, dtype=bool)
            for v in terms[1:]:
                ok &= O.same(terms[0], v)
            w = np.ones(O.N)
            for i in range(L.m):
                w *= np.where(O.bit[i], p[i], 1 - p[i])
            want = float(w[ok].sum())
        else:
            want = reliability_dp(L.n, L.edges, p, terms)
        st.units += 1
        close(got, want, "reliability of %r with terminals %r" % ([(L.E[i], p[i]) for i in range(L.m)][:12], ts))
        if d != keep:
            fail("reliability changes its arguments")
        if L.m >= 5 and len(terms) >= 2 and 1e-9 < want < 1 - 1e-9:
            st.nontrivial = True
_big.extend(globals(), ['reliability'])
