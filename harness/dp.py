"""Exact counting on graphs too large to enumerate.

An edge-by-edge dynamic program over the frontier of a fixed edge order,
written independently of the code under test (plain dictionaries of states,
no decision diagrams).  Besides the number of members it carries the
generating polynomial of their total cost, their least and greatest total
weight, and the probability of the family."""

INF = float("inf")


class Spec:
    """A family of edge subsets.

    deg(v, i, o)  may vertex v end with in-degree i and out-degree o
                  (undirected: i is always 0)
    cap(v, i, o)  may it have these degrees so far
    acyclic       no undirected cycle
    parity        no odd cycle
    mask[v]       terminals: bits collected by the component of v
    comp(e, mask, sc)  a finished component with e>0 or no edge (e is 0 or 1)
                  -> new scalar, or None to reject
    vert(v, i, o, sc)  a finished vertex -> new scalar or None
    final(sc)     accept"""
    directed = False
    acyclic = False
    parity = False
    mask = {}
    init = 0

    def cap(self, v, i, o):
        return True

    def deg(self, v, i, o):
        return True

    def comp(self, e, mask, sc):
        return sc

    vert = None

    def final(self, sc):
        return True


class Result:
    def __init__(self, count, poly, mn, mx, prob):
        self.count, self.poly, self.mn, self.mx, self.prob = count, poly, mn, mx, prob


def solve(n, edges, spec, cost=None, weight=None, prob=None, forced=None, limit=400000):
    """-> Result, or None when more than limit states appear."""
    m = len(edges)
    first, last = {}, {}
    for i, (u, v) in enumerate(edges):
        for x in (u, v):
            first.setdefault(x, i)
            last[x] = i
    B = m + 2
    cost = cost or [0] * m
    weight = weight or [0] * m
    prob = prob or [0.5] * m
    forced = forced or {}
    # state: (verts, comps, sc); verts: tuple of (i, o, comp, par) by frontier
    # position; comps: tuple of (has edge, mask)
    cur = {((), (), spec.init): (1, 0, 0, 1.0)}
    front = []
    work = 0
    for k, (u, v) in enumerate(edges):
        front = list(front)
        new = [x for x in (u, v) if first[x] == k]
        front += new
        pos = {x: j for j, x in enumerate(front)}
        out = [x for x in (u, v) if last[x] == k]
        pu, pv = pos[u], pos[v]
        nxt = {}
        options = (0, 1) if k not in forced else (forced[k],)
        for (verts, comps, sc), val in cur.items():
            if new:
                verts = list(verts)
                comps = list(comps)
                for x in new:
                    verts.append((0, 0, len(comps), 0))
                    comps.append((0, spec.mask.get(x, 0)))
            for take in options:
                V, C, s = list(verts), list(comps), sc
                if take:
                    a, b = V[pu], V[pv]
                    if a[2] == b[2]:
                        if spec.acyclic or (spec.parity and a[3] == b[3]):
                            continue
                        C[a[2]] = (1, C[a[2]][1])
                    else:
                        flip = 1 if spec.parity and a[3] == b[3] else 0
                        C[a[2]] = (1, C[a[2]][1] | C[b[2]][1])
                        for j, x in enumerate(V):
                            if x[2] == b[2]:
                                V[j] = (x[0], x[1], a[2], x[3] ^ flip)
                    a, b = V[pu], V[pv]
                    V[pu] = (a[0], a[1] + 1, a[2], a[3])
                    V[pv] = (b[0] + 1, b[1], b[2], b[3]) if spec.directed else (b[0], b[1] + 1, b[2], b[3])
                    if not spec.cap(u, *V[pu][:2]) or not spec.cap(v, *V[pv][:2]):
                        continue
                ok = True
                gone = set()
                for x in out:
                    j = pos[x]
                    t = V[j]
                    if not spec.deg(x, t[0], t[1]):
                        ok = False
                        break
                    if spec.vert is not None:
                        s = spec.vert(x, t[0], t[1], s)
                        if s is None:
                            ok = False
                            break
                    gone.add(j)
                    if not any(y[2] == t[2] for i2, y in enumerate(V) if i2 not in gone):
                        s = spec.comp(C[t[2]][0], C[t[2]][1], s)
                        if s is None:
                            ok = False
                            break
                if not ok:
                    continue
                # canonical form
                names, V2, C2, base = {}, [], [], {}
                for j, x in enumerate(V):
                    if j in gone:
                        continue
                    c = names.get(x[2])
                    if c is None:
                        c = names[x[2]] = len(C2)
                        C2.append(C[x[2]])
                        base[c] = x[3]
                    V2.append((x[0], x[1], c, x[3] ^ base[c]))
                key = (tuple(V2), tuple(C2), s)
                p, mn, mx, pr = val
                if take:
                    p = p << (B * cost[k])
                    w = weight[k]
                    mn, mx = mn + w, mx + w
                    pr = pr * prob[k]
                else:
                    pr = pr * (1 - prob[k])
                o = nxt.get(key)
                if o is not None:
                    p, mn, mx, pr = p + o[0], min(mn, o[1]), max(mx, o[2]), pr + o[3]
                nxt[key] = (p, mn, mx, pr)
        cur = nxt
        work += len(cur)
        if work > limit:
            return None
        front = [x for x in front if x not in out]
    poly, mn, mx, pr = 0, INF, -INF, 0.0
    for (_, _, sc), val in cur.items():
        if spec.final(sc):
            poly += val[0]
            mn, mx, pr = min(mn, val[1]), max(mx, val[2]), pr + val[3]
    coef = []
    q = poly
    while q:
        coef.append(q & ((1 << B) - 1))
        q >>= B
    return Result(sum(coef), coef, mn, mx, pr)


def contains(n, edges, spec, mask):
    """Is this edge set (as a bit mask) a member?"""
    r = solve(n, edges, spec, forced={i: mask >> i & 1 for i in range(len(edges))})
    return r.count == 1


# --------------------------------------------------------- particular families

def degs(fn):
    """Spec with per-vertex allowed degrees: fn(v) -> (allowed set, upper)."""
    class S(Spec):
        def __init__(self):
            self.t = {}

        def get(self, v):
            r = self.t.get(v)
            if r is None:
                r = self.t[v] = frozenset(fn(v))
            return r

        def deg(self, v, i, o):
            return o in self.get(v)

        def cap(self, v, i, o):
            s = self.get(v)
            return bool(s) and o <= max(s)
    return S


def one_comp(e, mask, sc):
    """exactly one component with edges; sc counts them"""
    if e:
        return 1 if sc == 0 else None
    return sc


def make(name, n, a):
    """Spec of an undirected family; the arguments are those of families.py."""
    everyone = range(n + 1)
    if name in ("matchings", "perfect_matchings", "k_matchings", "k_factors", "b_matchings", "f_factors"):
        if name == "matchings":
            f = lambda v: (0, 1)
        elif name == "perfect_matchings":
            f = lambda v: (1,)
        elif name == "k_matchings":
            f = lambda v: range(a + 1)
        elif name == "k_factors":
            f = lambda v: (a,)
        else:
            d = dict(map(tuple, a))
            f = (lambda v: range(d.get(v, 0) + 1)) if name == "b_matchings" else (lambda v: (d.get(v, 0),))
        return degs(f)()
    if name == "cycles":
        s = degs(lambda v: (2,) if a else (0, 2))()
        s.comp = one_comp
        s.final = lambda sc: sc == 1
        return s
    if name == "paths":
        T, ham = a
        s = degs(lambda v: (1,) if v in T else ((1, 2) if ham else (0, 1, 2)))()
        s.acyclic = True
        s.comp = one_comp
        s.final = lambda sc: sc == 1
        return s
    if name == "regular_graphs":
        d, conn = a
        lo, hi = (1, n) if d is None else (d, d) if isinstance(d, int) else d
        s = Spec()
        s.init = (0, 0)      # the common degree, finished components
        s.cap = lambda v, i, o: o <= hi

        def vert(v, i, o, sc):
            if o == 0:
                return sc
            if not lo <= o <= hi or sc[0] not in (0, o):
                return None
            return (o, sc[1])
        s.vert = vert
        if conn:
            s.comp = lambda e, mask, sc: sc if not e else (sc[0], 1) if sc[1] == 0 else None
        s.final = lambda sc: sc[0] > 0
        return s
    if name == "bipartite_graphs":
        s = Spec()
        s.parity = True
        if a:
            s.comp = one_comp
        return s
    if name == "trees":
        r, sp = a
        s = Spec()
        s.acyclic = True
        if r < 0:
            s.comp = one_comp
            s.final = lambda sc: sc == 1
        else:
            s.mask = {r: 1}
            s.comp = lambda e, mask, sc: None if e and not mask else sc
        if sp:
            s.deg = lambda v, i, o: o > 0
        return s
    if name == "forests":
        R, sp = a
        s = Spec()
        s.acyclic = True
        s.mask = {v: 1 << i for i, v in enumerate(R)}
        s.comp = lambda e, mask, sc: None if (mask & (mask - 1)) or (e and not mask) else sc
        if sp:
            s.deg = lambda v, i, o: o > 0 or v in R
        return s
    if name in ("connected_components", "steiner_subgraphs", "steiner_trees", "steiner_cycles", "steiner_paths"):
        full = (1 << len(a)) - 1
        if name == "steiner_cycles":
            s = degs(lambda v: (0, 2))()
        elif name == "steiner_paths":
            s = degs(lambda v: (0, 1, 2))()
        else:
            s = Spec()
        s.acyclic = name in ("steiner_trees", "steiner_paths")
        s.mask = {v: 1 << i for i, v in enumerate(a)}

        def comp(e, mask, sc):
            if mask not in (0, full) or (e and not mask):
                return None
            return 1 if e else sc
        s.comp = comp
        if name == "steiner_paths" or name == "steiner_cycles" and len(a) > 1:
            s.final = lambda sc: sc == 1
        return s
    if name == "graphs":
        s = Spec()
        dc = {v: r for v, r in a.get("dc", [])}
        al = {}
        for v, r in dc.items():
            al[v] = frozenset([r] if isinstance(r, int) else range(r[0], r[1], r[2]))
        s.deg = lambda v, i, o: v not in al or o in al[v]
        s.cap = lambda v, i, o: v not in al or (bool(al[v]) and o <= max(al[v]))
        s.acyclic = bool(a.get("nl"))
        if a.get("vg"):
            groups = [g for g in a["vg"] if g]
            empty = sum(1 for g in a["vg"] if not g)
            s.mask, fulls, b = {}, {0}, 0
            for g in groups:
                f = 0
                for v in g:
                    s.mask[v] = 1 << b
                    f |= 1 << b
                    b += 1
                fulls.add(f)

            def comp(e, mask, sc):
                if mask not in fulls:
                    return None
                if e and not mask:
                    return sc + 1 if sc < empty else None
                return sc
            s.comp = comp
            s.final = lambda sc: sc == empty
        return s
    if name == "degree_distribution_graphs":
        dist, conn = a
        dist = dict(map(tuple, dist))
        fixed = [k for k, c in sorted(dist.items()) if c >= 0]
        ix = {k: j for j, k in enumerate(fixed)}
        s = degs(lambda v: tuple(dist))()
        s.init = (0,) * len(fixed) + (0,)

        def vert(v, i, o, sc):
            j = ix.get(o)
            if j is None:
                return sc
            if sc[j] >= dist[o]:
                return None
            return sc[:j] + (sc[j] + 1,) + sc[j + 1:]
        s.vert = vert
        if conn:
            s.comp = lambda e, mask, sc: sc if not e else sc[:-1] + (1,) if sc[-1] == 0 else None
        s.final = lambda sc: all(sc[j] == dist[k] for j, k in enumerate(fixed)) and (not conn or sc[-1] == 1)
        return s
    raise KeyError(name)


def make_di(name, n, a):
    s = Spec()
    s.directed = True
    if name in ("directed_cycles", "directed_hamiltonian_cycles"):
        ham = name == "directed_hamiltonian_cycles"
        s.cap = lambda v, i, o: i <= 1 and o <= 1
        s.deg = lambda v, i, o: i == o == 1 or (not ham and i == o == 0)
        s.comp = one_comp
        s.final = lambda sc: sc == 1
    elif name == "directed_st_paths":
        x, t, ham = a[0], a[1], a[2] == 1
        want = {x: (0, 1), t: (1, 0)}
        s.cap = lambda v, i, o: i <= want[v][0] and o <= want[v][1] if v in want else i <= 1 and o <= 1
        s.deg = lambda v, i, o: (i, o) == want[v] if v in want else i == o and (i or not ham)
        s.acyclic = True
        s.comp = one_comp
        s.final = lambda sc: sc == 1
    elif name == "rooted_forests":
        R, sp = a
        s.acyclic = True
        if R is None:
            s.cap = lambda v, i, o: i <= 1
            s.deg = lambda v, i, o: i + o > 0 or not sp
        else:
            s.cap = lambda v, i, o: i <= (0 if v in R else 1)
            s.deg = lambda v, i, o: (i == 0 and o > 0 if v in R else i == 1 or o == 0) and (i + o > 0 or not sp)
    elif name == "rooted_trees":
        r, sp = a
        s.acyclic = True
        s.cap = lambda v, i, o: i <= (0 if v == r else 1)
        s.deg = lambda v, i, o: (True if v == r else i == 1 or o == 0) and (i + o > 0 or not sp)
        s.mask = {r: 1}
        s.comp = lambda e, mask, sc: None if e and not mask else sc
    elif name == "graphs":
        al = {}
        for d in ("in", "out"):
            al[d] = {v: frozenset([r] if isinstance(r, int) else range(r[0], r[1], r[2])) for v, r in a.get(d, [])}
        I, O = al["in"], al["out"]
        s.deg = lambda v, i, o: (v not in I or i in I[v]) and (v not in O or o in O[v])
        s.cap = lambda v, i, o: (v not in I or bool(I[v]) and i <= max(I[v])) and \
                                (v not in O or bool(O[v]) and o <= max(O[v]))
    else:
        raise KeyError(name)
    return s


def partitions(n, edges, limit=200000):
    """Numbers of partitions into k connected blocks: {k: count}."""
    first, last = {}, {}
    for i, (u, v) in enumerate(edges):
        for x in (u, v):
            first.setdefault(x, i)
            last[x] = i
    cur = {((), frozenset(), 0): 1}
    front = []
    work = 0
    for k, (u, v) in enumerate(edges):
        new = [x for x in (u, v) if first[x] == k]
        front = front + new
        out = [x for x in (u, v) if last[x] == k]
        pu, pv = front.index(u), front.index(v)
        nxt = {}
        for (lab, diff, cnt), val in cur.items():
            lab = list(lab)
            for x in new:
                lab.append(max(lab, default=-1) + 1)
            for take in (0, 1):
                L, D, c = list(lab), set(diff), cnt
                a, b = L[pu], L[pv]
                if take:
                    if a != b:
                        if (min(a, b), max(a, b)) in D:
                            continue
                        L = [a if x == b else x for x in L]
                        D = {tuple(sorted((a if x == b else x, a if y == b else y))) for x, y in D}
                else:
                    if a == b:
                        continue
                    D.add((min(a, b), max(a, b)))
                gone = set()
                for x in out:
                    j = front.index(x)
                    gone.add(j)
                    if not any(L[i] == L[j] for i in range(len(L)) if i not in gone):
                        c += 1
                ren = {}
                for j, x in enumerate(L):
                    if j not in gone:
                        ren.setdefault(x, len(ren))
                key = (tuple(ren[x] for j, x in enumerate(L) if j not in gone),
                       frozenset(tuple(sorted((ren[x], ren[y]))) for x, y in D if x in ren and y in ren), c)
                nxt[key] = nxt.get(key, 0) + val
        cur = nxt
        work += len(cur)
        if work > limit:
            return None
        front = [x for x in front if x not in out]
    r = {}
    for (_, _, c), val in cur.items():
        r[c] = r.get(c, 0) + val
    return r


def connected_sets(n, edges, order, weight=None, limit=200000):
    """Connected induced subgraphs with an edge, by total vertex weight:
    {weight: number of vertex sets of at least two vertices}."""
    weight = weight or [1] * n
    adj = [set() for _ in range(n)]
    for u, v in edges:
        adj[u].add(v)
        adj[v].add(u)
    at = {v: i for i, v in enumerate(order)}
    lastn = {v: max([at[v]] + [at[x] for x in adj[v]]) for v in range(n)}
    cur = {((), 0, 0): {0: 1}}    # labels of the frontier (-1: out), done, size (0,1,2+)
    front = []
    work = 0
    for k, v in enumerate(order):
        nxt = {}
        f2 = front + [v]
        keep = [j for j, x in enumerate(f2) if lastn[x] > k]
        for (lab, done, size), val in cur.items():
            for take in (0, 1):
                if take and done:
                    continue
                L = list(lab) + [-1]
                if take:
                    c = max(L) + 1
                    L[-1] = c
                    for j, x in enumerate(front):
                        if x in adj[v] and L[j] >= 0 and L[j] != c:
                            o = L[j]
                            L = [c if y == o else y for y in L]
                alive = {L[j] for j in keep if L[j] >= 0}
                closed = {x for x in L if x >= 0} - alive
                d = done
                if closed:
                    if len(closed) > 1 or alive:
                        continue
                    d = 1
                ren = {}
                for j in keep:
                    if L[j] >= 0:
                        ren.setdefault(L[j], len(ren))
                key = (tuple(ren[L[j]] if L[j] >= 0 else -1 for j in keep), d, min(2, size + take))
                t = nxt.setdefault(key, {})
                for w, x in val.items():
                    w2 = w + (weight[v] if take else 0)
                    t[w2] = t.get(w2, 0) + x
        cur = nxt
        work += len(cur)
        if work > limit:
            return None
        front = [f2[j] for j in keep]
    r = {}
    for (_, done, size), val in cur.items():
        if done and size == 2:
            for w, x in val.items():
                r[w] = r.get(w, 0) + x
    return r


def vertex_sets(n, edges, order, kind, weight=None, limit=200000):
    """independent_sets / vertex_covers / dominating_sets (distance 1 in the
    given edges) by size: {size: count}."""
    adj = [set() for _ in range(n)]
    for u, v in edges:
        adj[u].add(v)
        adj[v].add(u)
    at = {v: i for i, v in enumerate(order)}
    lastn = {v: max([at[v]] + [at[x] for x in adj[v]]) for v in range(n)}
    cur = {(): {0: 1}}
    front = []
    work = 0
    for k, v in enumerate(order):
        nxt = {}
        f2 = front + [v]
        keep = [j for j, x in enumerate(f2) if lastn[x] > k]
        nb = [j for j, x in enumerate(front) if x in adj[v]]
        for st, val in cur.items():
            for take in (0, 1):
                S = list(st) + [2 if take else 0]
                if kind == "independent_sets":
                    if take and any(S[j] == 2 for j in nb):
                        continue
                elif kind == "vertex_covers":
                    if not take and any(S[j] != 2 for j in nb):
                        continue
                else:
                    if take:
                        for j in nb:
                            S[j] = max(S[j], 1)
                    elif any(S[j] == 2 for j in nb):
                        S[-1] = 1
                    if any(S[j] == 0 for j in range(len(S)) if j not in keep):
                        continue
                key = tuple(S[j] for j in keep)
                t = nxt.setdefault(key, {})
                for w, x in val.items():
                    t[w + take] = t.get(w + take, 0) + x
        cur = nxt
        work += len(cur)
        if work > limit:
            return None
        front = [f2[j] for j in keep]
    r = {}
    for val in cur.values():
        for w, x in val.items():
            r[w] = r.get(w, 0) + x
    return r
