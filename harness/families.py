"""Reference definitions of the undirected graph families.

FAM[name] = (gen, call, cond)
  gen(src, g)           JSON-able arguments, in unlabelled vertex numbers
  call(f, L, a, **kw)   calls f (GraphSet.<method> or the bound method)
  cond(O, a)            boolean array over all edge subsets (brute force)
"""

import itertools

import numpy as np

FAM = {}
METHOD = {}


def fam(name, method=None):
    def deco(cls):
        FAM[name] = (cls.gen, cls.call, cls.cond)
        METHOD[name] = method or name
        return cls
    return deco


def _vs(src, g, lo, hi):
    n = g["n"]
    k = src.int(min(lo, n), min(hi, n))
    return src.sample(range(n), k)


def _range(src, hi):
    """A non-empty range [lo, stop, step], or an int."""
    if src.chance(1, 3):
        return src.int(0, hi)
    lo = src.int(0, hi)
    step = src.int(1, 3)
    cnt = src.int(1, 3)
    return [lo, lo + step * (cnt - 1) + 1 + src.below(step), step]


def pyrange(r):
    return r if isinstance(r, int) else range(r[0], r[1], r[2])


def _inr(x, r):
    if isinstance(r, int):
        return x == r
    vals = list(range(r[0], r[1], r[2]))
    return np.isin(x, vals)


def groups_cond(O, groups, comps):
    """groups: non-empty lists of vertices; comps: exact number of components
    (with edges) outside the groups, or None for any."""
    ok = np.ones(O.N, dtype=bool)
    for gr in groups:
        for v in gr[1:]:
            ok &= O.same(gr[0], v)
    for a, b in itertools.combinations(groups, 2):
        ok &= ~O.same(a[0], b[0])
    if comps is not None:
        # components with edges that hold a vertex of a group
        col = np.zeros(O.N, dtype=np.int16)
        rep = {}
        for gr in groups:
            col += O.touched[:, gr[0]]
        ok &= (O.ncomps - col) == comps
    return ok


def clique_cond(O, k):
    return (O.nverts == k) & (O.cnt == k * (k - 1) // 2)


def path_cond(O):
    return (O.ncomps == 1) & O.forest & (O.deg <= 2).all(axis=1)


def cycle_cond(O):
    return (O.ncomps == 1) & ((O.deg == 0) | (O.deg == 2)).all(axis=1)


def regular_cond(O, degree, conn):
    lo, hi = (1, O.n) if degree is None else (degree, degree) if isinstance(degree, int) else degree
    mx = O.deg.max(axis=1)
    ok = (O.cnt > 0) & (mx >= lo) & (mx <= hi) & ((O.deg == 0) | (O.deg == mx[:, None])).all(axis=1)
    return ok & (O.ncomps == 1) if conn else ok


def bip_cond(O, conn):
    ok = O.bipartite()
    return ok & (O.ncomps <= 1) if conn else ok


@fam("graphs")
class _:
    def gen(src, g):
        n, m = g["n"], len(g["edges"])
        a = {}
        which = src.int(1, 31)
        if which & 1:
            vs = src.shuffle(range(n))
            groups = []
            for _ in range(src.int(1, 3)):
                k = src.int(0, 3)
                groups.append(vs[:k])
                vs = vs[k:]
            a["vg"] = groups
        if which & 2:
            dc = {}
            for v in src.subset(range(n)) or [0]:
                dc[v] = _range(src, 4)
            a["dc"] = [[v, r] for v, r in dc.items()]
        if which & 4:
            a["ne"] = _range(src, m)
        if which & 8 and src.chance(2, 3):
            a["nl"] = True
        if which & 16:
            lc = []
            for _ in range(src.int(1, 2)):
                es = src.sample(range(m), src.int(1, min(m, 5)))
                expr = []
                tot = 0
                for e in es:
                    w = src.choice([None, 1, 2, -1, 0.5, -1.25, 3, 0])
                    expr.append([e, src.below(2), w])
                x, y = src.int(-6, 10) / 2, src.int(0, 12) / 4
                if src.chance(1, 4):
                    # large coefficients and a bound next to a total of some of them
                    for t in expr:
                        t[2] = src.choice([-1, 1]) * (1 << src.choice([16, 24, 24, 31, 40])) + src.int(-1, 1)
                    x = sum(t[2] for t in expr if src.below(2)) + src.int(-1, 1)
                    y = src.choice([0, 0, 1, 1 << 20, 1 << 41])
                    if src.below(2):
                        x -= y
                lc.append([expr, x, x + y])
            a["lc"] = lc
        return a

    def call(f, L, a, **kw):
        lab = L.lab
        if "vg" in a:
            kw["vertex_groups"] = [[lab[v] for v in gr] for gr in a["vg"]]
        if "dc" in a:
            kw["degree_constraints"] = {lab[v]: pyrange(r) for v, r in a["dc"]}
        if "ne" in a:
            kw["num_edges"] = pyrange(a["ne"])
        if "nl" in a:
            kw["no_loop"] = a["nl"]
        if "lc" in a:
            lcs = []
            for expr, lo, hi in a["lc"]:
                e2 = []
                for e, fl, w in expr:
                    u, v = L.E[e]
                    if fl:
                        u, v = v, u
                    e2.append((u, v) if w is None else (u, v, w))
                lcs.append((e2, (lo, hi)))
            kw["linear_constraints"] = lcs
        return f(**kw)

    def cond(O, a):
        ok = np.ones(O.N, dtype=bool)
        if a.get("vg"):
            groups = [gr for gr in a["vg"] if gr]
            ok &= groups_cond(O, groups, sum(1 for gr in a["vg"] if not gr))
        for v, r in a.get("dc", []):
            ok &= _inr(O.deg[:, v], r)
        if "ne" in a:
            ok &= _inr(O.cnt, a["ne"])
        if a.get("nl"):
            ok &= O.forest
        for expr, lo, hi in a.get("lc", []):
            s = np.zeros(O.N)
            for e, _, w in expr:
                s += O.bit[e] * (1.0 if w is None else float(w))
            ok &= (s >= lo) & (s <= hi)
        return ok


@fam("connected_components")
class _:
    def gen(src, g):
        return _vs(src, g, 1, 4)

    def call(f, L, a, **kw):
        return f([L.lab[v] for v in a], **kw)

    def cond(O, a):
        return groups_cond(O, [a], 0)


def _term(name, extra):
    @fam(name)
    class _:
        def gen(src, g):
            return _vs(src, g, 1 if src.chance(1, 6) else 2, 4)

        def call(f, L, a, **kw):
            return f([L.lab[v] for v in a], **kw)

        def cond(O, a):
            r = groups_cond(O, [a], 0) & extra(O)
            if len(a) == 1 and name == "steiner_cycles":
                r |= O.cnt == 0         # the terminal alone
            return r


_term("steiner_subgraphs", lambda O: True)
_term("steiner_trees", lambda O: O.forest)
_term("steiner_cycles", cycle_cond)
_term("steiner_paths", path_cond)


@fam("cliques")
class _:
    def gen(src, g):
        return src.int(2, 5)

    def call(f, L, a, **kw):
        return f(a, **kw)

    def cond(O, k):
        return clique_cond(O, k)


@fam("bicliques")
class _:
    def gen(src, g):
        return src.int(1, 3)

    def call(f, L, a, **kw):
        return f(a, a, **kw)

    def cond(O, a):
        return bip_cond(O, True) & regular_cond(O, a, True) & (O.cnt == a * a)


@fam("trees")
class _:
    def gen(src, g):
        return [src.int(-1, g["n"] - 1), src.below(2)]

    def call(f, L, a, **kw):
        if a[0] >= 0:
            kw["root"] = L.lab[a[0]]
        return f(is_spanning=bool(a[1]), **kw)

    def cond(O, a):
        r, sp = a
        ok = O.forest & (O.ncomps == 1 if r < 0 else groups_cond(O, [[r]], 0))
        if sp:
            ok &= O.touched.all(axis=1)
        return ok


@fam("forests")
class _:
    def gen(src, g):
        return [_vs(src, g, 1, 4), src.below(2)]

    def call(f, L, a, **kw):
        return f([L.lab[v] for v in a[0]], is_spanning=bool(a[1]), **kw)

    def cond(O, a):
        roots, sp = a
        ok = O.forest & groups_cond(O, [[r] for r in roots], 0)
        if sp:
            for v in range(O.n):
                if v not in roots:
                    ok &= O.touched[:, v]
        return ok


@fam("cycles")
class _:
    def gen(src, g):
        return src.below(2)

    def call(f, L, a, **kw):
        return f(is_hamilton=bool(a), **kw)

    def cond(O, a):
        ok = cycle_cond(O)
        return ok & (O.nverts == O.n) if a else ok


@fam("paths")
class _:
    def gen(src, g):
        k = src.int(0, 2)
        t = src.sample(range(g["n"]), k)
        return [t, src.below(2)]

    def call(f, L, a, **kw):
        t = [L.lab[v] for v in a[0]]
        return f(*t, is_hamilton=bool(a[1]), **kw) if not kw.pop("_kw", False) else \
            f(**dict(zip(("terminal1", "terminal2"), t)), is_hamilton=bool(a[1]), **kw)

    def cond(O, a):
        ok = path_cond(O)
        for t in a[0]:
            ok &= O.deg[:, t] == 1
        return ok & (O.nverts == O.n) if a[1] else ok




def _noarg(name, cond_):
    FAM[name] = (lambda src, g: None, lambda f, L, a, **kw: f(**kw), lambda O, a: cond_(O))
    METHOD[name] = name


_noarg("matchings", lambda O: (O.deg <= 1).all(axis=1))
_noarg("perfect_matchings", lambda O: (O.deg == 1).all(axis=1))
_noarg("letter_P_graphs", lambda O: (O.ncomps == 1) & ((O.deg == 1).sum(axis=1) == 1)
       & ((O.deg == 3).sum(axis=1) == 1) & (O.deg <= 3).all(axis=1))

for _n, _lo, _c in (("k_matchings", 0, lambda O, k: (O.deg <= k).all(axis=1)),
                    ("k_factors", 0, lambda O, k: (O.deg == k).all(axis=1))):
    FAM[_n] = (lambda src, g, _lo=_lo: src.int(_lo, 4), lambda f, L, a, **kw: f(a, **kw), _c)
    METHOD[_n] = _n


def _vmap(src, g):
    n = g["n"]
    return [[v, src.int(0, 4)] for v in src.subset(range(n), 3, 4)]


def _vmap_call(f, L, a, **kw):
    return f({L.lab[v]: k for v, k in a}, **kw)


def _b_cond(O, a):
    d = dict(map(tuple, a))
    ok = np.ones(O.N, dtype=bool)
    for v in range(O.n):
        ok &= O.deg[:, v] <= d.get(v, 0)
    return ok


def _f_cond(O, a):
    d = dict(map(tuple, a))
    ok = np.ones(O.N, dtype=bool)
    for v in range(O.n):
        ok &= O.deg[:, v] == d.get(v, 0)
    return ok


FAM["b_matchings"] = (_vmap, _vmap_call, _b_cond)


def _fgen(src, g):
    """Half of the requests are made satisfiable by reading the degrees off
    some subgraph."""
    if src.chance(1, 3):
        return _vmap(src, g)
    d = [0] * g["n"]
    for u, v in src.subset(g["edges"]):
        d[u] += 1
        d[v] += 1
    return [[v, k] for v, k in enumerate(d) if k or src.chance(1, 2)]


FAM["f_factors"] = (_fgen, _vmap_call, _f_cond)
METHOD["b_matchings"] = "b_matchings"
METHOD["f_factors"] = "f_factors"


def _deg_arg(src, g):
    k = src.below(3)
    if k == 0:
        d = None
    elif k == 1:
        d = src.int(1, 4)
    else:
        lo = src.int(1, 3)
        d = [lo, lo + src.int(0, 3)]
    return [d, src.below(2)]


def _deg_call(f, L, a, **kw):
    d = tuple(a[0]) if isinstance(a[0], list) else a[0]
    if a[0] is None and not kw.get("_expl"):
        return f(is_connected=bool(a[1]), **kw)
    return f(degree=d, is_connected=bool(a[1]), **kw)


FAM["regular_graphs"] = (_deg_arg, _deg_call, lambda O, a: regular_cond(O, a[0], a[1]))
METHOD["regular_graphs"] = "regular_graphs"
FAM["regular_bipartite_graphs"] = (_deg_arg, _deg_call,
                                   lambda O, a: regular_cond(O, a[0], a[1]) & bip_cond(O, False))
METHOD["regular_bipartite_graphs"] = "regular_bipartite_graphs"
FAM["bipartite_graphs"] = (lambda src, g: src.below(2),
                           lambda f, L, a, **kw: f(is_connected=bool(a), **kw),
                           lambda O, a: bip_cond(O, a))
METHOD["bipartite_graphs"] = "bipartite_graphs"


def _dd_gen(src, g):
    """Degree counts are usually read off a subgraph."""
    n = g["n"]
    if src.chance(3, 4):
        d = [0] * n
        for u, v in src.subset(g["edges"]):
            d[u] += 1
            d[v] += 1
        dist = {}
        for x in d:
            dist[x] = dist.get(x, 0) + 1
    else:
        dist = {k: src.int(0, 3) for k in src.subset(range(4))}
    for k in list(dist):
        if src.chance(1, 3):
            dist[k] = -1
    if src.chance(1, 4):
        dist[src.int(0, 4)] = -1
    if not dist:
        dist = {1: -1, 0: -1}
    return [sorted(dist.items()), src.below(2)]


def _dd_cond(O, a):
    dist = dict(map(tuple, a[0]))
    ok = np.isin(O.deg, [k for k in dist]).all(axis=1)
    for k, c in dist.items():
        if c >= 0:
            ok &= (O.deg == k).sum(axis=1) == c
    if a[1]:
        ok &= O.ncomps == 1
    return ok


FAM["degree_distribution_graphs"] = (_dd_gen, lambda f, L, a, **kw: f({k: c for k, c in a[0]}, bool(a[1]), **kw),
                                     _dd_cond)
METHOD["degree_distribution_graphs"] = "degree_distribution_graphs"
