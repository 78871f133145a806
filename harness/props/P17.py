"""Vertex-set families against brute force over all 2^n vertex sets."""
import itertools

from core import fail
from graphs import Labelled, gen_graph, labels
from props import _big

ENTROPY = 220
RULE = ("at least one query of the case has an answer that is neither empty nor all vertex sets; "
        "cases are distinct by universe, labels, given edges, distance and follow-up operation")
BUDGET = {"quick": 6000, "thorough": 150000}
QUERIES = ["independent_sets", "dominating_sets", "vertex_covers", "cliques"]


def gen(src, tier):
    c = dict(mode=src.choice(["derived", "explicit", "both"]))
    if c["mode"] != "explicit":
        c["g"] = gen_graph(src, tier, nmax=8, mmax=12, big=False)
        n = c["g"]["n"]
    else:
        n = src.int(2, 9)
    if c["mode"] != "derived":
        n = c["n"] = src.int(2, 9)
        c["kind"] = src.choice(["int1", "int0", "scatter", "str", "strnum", "neg"])
        c["order"] = src.shuffle(range(n))
    pairs = list(itertools.combinations(range(n), 2))
    qs = []
    for _ in range(src.int(1, 4)):
        if src.chance(1, 2) and "g" in c and c["mode"] == "derived":
            E = [e for e in c["g"]["edges"] if not src.chance(1, 4)]
        else:
            E = src.sample(pairs, src.int(0, min(12, len(pairs))))
        E = [[v, u] if src.chance(1, 2) else [u, v] for u, v in E]
        if src.chance(1, 8) and E:
            E.append(list(reversed(src.choice(E))))
        qs.append([src.choice(QUERIES), E, src.int(0, 5)])
    c["q"] = qs
    return c


def dist_table(n, E):
    inf = 99
    d = [[0 if i == j else inf for j in range(n)] for i in range(n)]
    for u, v in E:
        d[u][v] = d[v][u] = 1
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return d


def expected(q, n, E, dist):
    d = dist_table(n, E)
    out = set()
    full = (1 << n) - 1
    near = [sum(1 << j for j in range(n) if d[i][j] <= dist) for i in range(n)]
    adj = [sum(1 << j for j in range(n) if d[i][j] == 1) for i in range(n)]
    for s in range(1 << n):
        vs = [i for i in range(n) if s >> i & 1]
        if q == "independent_sets":
            ok = all(not (near[i] & s & ~(1 << i)) for i in vs)
        elif q == "dominating_sets":
            cov = 0
            for i in vs:
                cov |= near[i]
            ok = cov == full
        elif q == "vertex_covers":
            ok = all(s >> u & 1 or s >> v & 1 for u, v in E)
        else:
            ok = all((adj[i] | 1 << i) & s == s for i in vs)
        if ok:
            out.add(s)
    return out


def run(case, st):
    from graphillion import GraphSet, VertexSetSet
    if "g" in case:
        L = Labelled(case["g"])
        L.set_universe(GraphSet)
        lab = L.lab
        u = VertexSetSet.universe()
        if len(u) != L.n or set(u) != set(lab):
            fail("vertex universe derived from %r is %r" % (L.E, u))
        st.units += 1
    if case["mode"] != "derived":
        lab = labels(case["kind"], case["n"])
        order = [lab[i] for i in case["order"]]
        VertexSetSet.set_universe(list(order))
        if VertexSetSet.universe() != order:
            fail("vertex universe %r registered, %r reported" % (order, VertexSetSet.universe()))
    n = len(lab)
    inv = {l: i for i, l in enumerate(lab)}
    kept = []
    for q, E, dist in case["q"]:
        edges = [(lab[a], lab[b]) for a, b in E]
        kw = {}
        if q in ("independent_sets", "dominating_sets"):
            if dist:
                kw["distance"] = dist
        r = getattr(VertexSetSet, q)(list(edges), **kw)
        want = expected(q, n, E, dist or 1)
        kept.append((q, edges, kw, r, want))
        st.tag(q + (" distance>1" if dist > 1 and kw else ""))
    for q, edges, kw, r, want in kept:
        st.units += 1
        lst = list(r)
        got = [sum(1 << inv[v] for v in s) for s in lst]
        if any(len(set(s)) != len(s) for s in lst) or len(set(got)) != len(got) or set(got) != want or r.len() != len(want):
            fail("%s(%r, %r) over %r: not expected: %r, missing: %r, len %d/%d" % (
                q, edges, kw, lab,
                [[lab[i] for i in range(n) if x >> i & 1] for x in sorted(set(got) - want)[:3]],
                [[lab[i] for i in range(n) if x >> i & 1] for x in sorted(want - set(got))[:3]], r.len(), len(want)))
        if 0 < len(want) < 1 << n:
            st.nontrivial = True
_big.extend(globals(), ['vertexsets'])
