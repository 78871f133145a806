"""Graph generation, labelling and brute-force oracles shared by the checks."""

import datetime
import itertools
from fractions import Fraction

import numpy as np

SHAPES = ["random", "random", "random", "path", "cycle", "star", "complete", "grid", "bip",
          "tree+", "two", "wheel", "theta", "near"]


def _compact(n, edges):
    used = sorted({v for e in edges for v in e})
    m = {v: i for i, v in enumerate(used)}
    return len(used), [(m[u], m[v]) for u, v in edges]


def gen_edges(src, nmax, mmax):
    """A simple graph without isolated vertices: (n, [(u, v)]), unlabelled."""
    shape = src.choice(SHAPES)
    n = src.int(2, nmax)
    E = []
    if shape == "random":
        pairs = list(itertools.combinations(range(n), 2))
        m = src.int(1, min(mmax, len(pairs)))
        E = src.sample(pairs, m)
    elif shape == "path":
        E = [(i, i + 1) for i in range(n - 1)]
    elif shape == "cycle":
        n = max(n, 3)
        E = [(i, (i + 1) % n) for i in range(n)]
    elif shape == "star":
        E = [(0, i) for i in range(1, n)]
    elif shape == "complete":
        while n > 2 and n * (n - 1) // 2 > mmax:
            n -= 1
        E = list(itertools.combinations(range(n), 2))
    elif shape == "grid":
        r = src.int(2, 3)
        c = max(2, min(n // r, 4))
        E = [(i * c + j, i * c + j + 1) for i in range(r) for j in range(c - 1)]
        E += [(i * c + j, i * c + c + j) for i in range(r - 1) for j in range(c)]
    elif shape == "bip":
        a = src.int(1, max(1, n // 2))
        E = [(i, j) for i in range(a) for j in range(a, n)]
    elif shape == "tree+":
        E = [(src.below(i), i) for i in range(1, n)]
        for _ in range(src.int(0, 3)):
            u, v = src.below(n), src.below(n)
            if u != v:
                E.append((u, v))
    elif shape == "two":
        a = max(2, n // 2)
        for lo, hi in ((0, a), (a, max(n, a + 2))):
            for u, v in itertools.combinations(range(lo, hi), 2):
                if src.chance(2, 3):
                    E.append((u, v))
    elif shape == "wheel":
        k = max(3, n - 1)
        E = [(i, (i + 1) % k) for i in range(k)] + [(k, i) for i in range(k)]
    elif shape == "theta":
        n = max(n, 4)
        E = [(i, (i + 1) % n) for i in range(n)] + [(0, n // 2)]
    elif shape == "near":
        pairs = list(itertools.combinations(range(n), 2))
        drop = set(src.sample(range(len(pairs)), src.int(0, 2)))
        E = [p for i, p in enumerate(pairs) if i not in drop]
    E = list(dict.fromkeys((min(u, v), max(u, v)) for u, v in E))
    if shape not in ("random",) and src.chance(1, 3) and len(E) > 1:
        E = [e for e in E if not src.chance(1, 5)] or E
    if not E:
        E = [(0, 1)]
    if len(E) > mmax:
        E = E[:mmax] if src.chance(1, 2) else src.sample(E, mmax)
    return _compact(0, E)


LABELS = ["int1", "int0", "scatter", "str", "strnum", "tuple", "neg", "mixed", "tuple"]


def labels(kind, n):
    if kind == "int1":
        return [i + 1 for i in range(n)]
    if kind == "int0":
        return list(range(n))
    if kind == "scatter":
        return [(i * 37 + 11) % (101 if n <= 101 else 1009) for i in range(n)]
    if kind == "str":
        return ["abcdefghijklmnopqrstuvwxyz"[(i * 7 + 3) % 26] + ("" if i < 26 else str(i)) for i in range(n)]
    if kind == "strnum":
        return ["v%d" % (i + 7) for i in range(n)]
    if kind == "tuple":
        return [(i % 3, i // 3) for i in range(n)]
    if kind == "neg":
        return [1 - i for i in range(n)]     # -1 and -2 have the same hash
    if kind == "float":
        return [i * 0.75 - 1.0 for i in range(n)]
    if kind == "big":
        return [10 ** 20 + i * 3 for i in range(n)]
    if kind == "quirky":
        return ["a'b", 'c"d', "e\nf", "g h", "\u00fc\u4e16", "\\n", "1", "(1, 2)", "'", "B", "T", "."][:n] + \
            ["q%d" % i for i in range(12, n)]
    if kind == "nested":
        return [("x%d" % (i % 2), (i // 2, "y")) for i in range(n)]
    if kind == "date":
        return [datetime.date(2020, 1 + i % 12, 1 + i // 12) for i in range(n)]
    if kind == "obj":
        return [Thing(i * 5 % 97) for i in range(n)]
    if kind == "mixed":    # vertices that cannot be compared with each other
        return [[i, "s%d" % i, (i, "t"), b"b%d" % i, i + 0.5, 1j * i][i * 5 % 6] for i in range(n)]
    if kind == "opaque":    # no order at all
        return [Opaque(i * 7 % 89) for i in range(n)]
    raise ValueError(kind)


class Opaque:
    """A vertex that has no order."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.x == o.x

    def __hash__(self):
        return hash(("Opaque", self.x))

    def __repr__(self):
        return "Opaque(%d)" % self.x


class Thing:
    """A vertex that is neither number, string nor tuple."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Thing) and self.x == o.x

    def __lt__(self, o):
        return self.x < o.x

    def __hash__(self):
        return hash(("Thing", self.x))

    def __repr__(self):
        return "<thing %d>" % self.x


def respell(v, k):
    """An equal label written differently."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        if abs(v) < 1 << 31:
            return [v, float(v), np.int64(v), Fraction(v), np.float64(v), v][k % 6]
        return [v, Fraction(v), int(str(v))][k % 3]
    if isinstance(v, float):
        return [v, np.float64(v), Fraction(v)][k % 3]
    if isinstance(v, str):
        return [v, "".join(list(v)), np.str_(v)][k % 3]
    if isinstance(v, tuple):
        return tuple(respell(x, k // 2 + i) for i, x in enumerate(v))
    if isinstance(v, datetime.date):
        return datetime.date(v.year, v.month, v.day)
    if isinstance(v, Thing):
        return Thing(v.x)
    return v


TRAV = ["greedy", "bfs", "dfs", "as-is"]


def gen_graph(src, tier="quick", nmax=7, mmax=10, kinds=None, big=True):
    """-> JSON-able description of a labelled, ordered, oriented graph."""
    if big:
        s = src.below(20)
        if s >= 19:
            nmax, mmax = nmax + 3, mmax + 4
        elif s >= 14:
            nmax, mmax = nmax + 1, mmax + 2
    n, E = gen_edges(src, nmax, mmax)
    if src.chance(3, 4):
        E = src.shuffle(E)
    f = src.bits(len(E))
    E = [(v, u) if f >> i & 1 else (u, v) for i, (u, v) in enumerate(E)]
    perm = src.shuffle(range(n)) if src.chance(1, 2) else list(range(n))
    E = [[perm[u], perm[v]] for u, v in E]
    return dict(n=n, edges=E, kind=src.choice(kinds or LABELS), trav=src.choice(TRAV),
                src=src.int(-1, n - 1))


class Labelled:
    def __init__(self, g):
        self.n = g["n"]
        self.edges = [tuple(e) for e in g["edges"]]
        self.lab = labels(g["kind"], self.n)
        self.inv = {l: i for i, l in enumerate(self.lab)}
        self.E = [(self.lab[u], self.lab[v]) for u, v in self.edges]
        self.m = len(self.E)
        self.idx = {}
        for i, (u, v) in enumerate(self.E):
            self.idx[(u, v)] = i
            self.idx[(v, u)] = i
        self.trav = g["trav"]
        self.source = None if g.get("src", -1) < 0 else self.lab[g["src"] % self.n]

    def set_universe(self, GraphSet):
        GraphSet.set_universe(list(self.E), traversal=self.trav, source=self.source)

    def mask(self, graph):
        r = 0
        for e in graph:
            b = 1 << self.idx[tuple(e)[:2]]
            if r & b:
                raise AssertionError("edge listed twice in %r" % (graph,))
            r |= b
        return r

    def graph(self, mask):
        return [self.E[i] for i in range(self.m) if mask >> i & 1]

    def masks(self, gs):
        out = []
        for g in gs:
            out.append(self.mask(g))
        return out

    def family(self, GraphSet, masks):
        return GraphSet([self.graph(m) for m in masks])


class Oracle:
    """Vectorised facts about all 2^m edge subsets."""

    def __init__(self, n, edges):
        self.n, self.edges, self.m = n, edges, len(edges)
        S = np.arange(1 << self.m, dtype=np.int64)
        self.S = S
        self.N = len(S)
        self.bit = [((S >> i) & 1).astype(bool) for i in range(self.m)]
        deg = np.zeros((self.N, n), dtype=np.int16)
        for i, (u, v) in enumerate(edges):
            deg[:, u] += self.bit[i]
            deg[:, v] += self.bit[i]
        self.deg = deg
        self.cnt = sum((b.astype(np.int16) for b in self.bit), np.zeros(self.N, dtype=np.int16))
        self._lab = None

    @property
    def lab(self):
        if self._lab is None:
            L = np.tile(np.arange(self.n, dtype=np.int16), (self.N, 1))
            while True:
                before = L.copy()
                for i, (u, v) in enumerate(self.edges):
                    b = self.bit[i]
                    mn = np.minimum(L[:, u], L[:, v])
                    L[:, u] = np.where(b, mn, L[:, u])
                    L[:, v] = np.where(b, mn, L[:, v])
                if (before == L).all():
                    break
            self._lab = L
        return self._lab

    @property
    def touched(self):
        return self.deg > 0

    @property
    def nverts(self):
        return self.touched.sum(axis=1)

    @property
    def ncomps(self):
        """Components that contain an edge."""
        return ((self.lab == np.arange(self.n)) & self.touched).sum(axis=1)

    @property
    def forest(self):
        return self.cnt == self.nverts - self.ncomps

    @property
    def connected(self):
        """At most one component containing edges."""
        return self.ncomps <= 1

    def same(self, u, v):
        return self.lab[:, u] == self.lab[:, v]

    def bipartite(self):
        """No odd cycle: 2-colouring of the bipartite double cover."""
        n = self.n
        d = [(u, v + n) for u, v in self.edges] + [(u + n, v) for u, v in self.edges]
        L = np.tile(np.arange(2 * n, dtype=np.int16), (self.N, 1))
        while True:
            before = L.copy()
            for i, (u, v) in enumerate(d):
                b = self.bit[i % self.m]
                mn = np.minimum(L[:, u], L[:, v])
                L[:, u] = np.where(b, mn, L[:, u])
                L[:, v] = np.where(b, mn, L[:, v])
            if (before == L).all():
                break
        return (L[:, :n] != L[:, n:]).all(axis=1)

    def vmask(self):
        r = np.zeros(self.N, dtype=np.int64)
        for v in range(self.n):
            r |= self.touched[:, v].astype(np.int64) << v
        return r

    def masks(self, cond):
        return np.nonzero(cond)[0]


def diff_text(L, got, want, what):
    """Readable difference between two mask collections."""
    got, want = set(got), set(int(x) for x in want)
    extra = sorted(got - want)[:3]
    miss = sorted(want - got)[:3]
    return ("%s: %d returned, %d expected; not expected: %s; missing: %s"
            % (what, len(got), len(want), [L.graph(x) for x in extra], [L.graph(x) for x in miss]))


def check_family(L, gs, cond, what, st, fail, limit=4000):
    """gs must hold exactly the edge sets whose entry in the boolean array
    cond is true."""
    st.units += 1
    want = np.nonzero(cond)[0]
    n = gs.len()
    if n != len(want):
        got = L.masks(itertools.islice(gs, limit))
        fail(diff_text(L, got, want, what) if n <= limit and len(want) <= limit
             else "%s: %d members, %d expected" % (what, n, len(want)))
    if n <= limit:
        got = L.masks(gs)
        if len(got) != n or len(set(got)) != n or not bool(cond[np.array(got, dtype=np.int64)].all() if got else True):
            fail(diff_text(L, got, want, what))
    else:
        got = L.masks(itertools.islice(gs, 500))
        if not bool(cond[np.array(got, dtype=np.int64)].all()):
            fail(what + ": a returned graph does not qualify")
        step = max(1, len(cond) // 397)
        for k in range(0, len(cond), step):
            if (L.graph(k) in gs) != bool(cond[k]):
                fail("%s: membership of %s is wrong" % (what, L.graph(k)))


# ------------------------------------------------------------------ digraphs

def gen_digraph(src, tier="quick", nmax=5, mmax=9, kinds=None):
    n = src.int(2, nmax)
    shape = src.choice(["random", "random", "bidir", "cycle+", "tour", "layer"])
    E = []
    if shape == "random":
        pairs = list(itertools.permutations(range(n), 2))
        E = src.sample(pairs, src.int(1, min(mmax, len(pairs))))
    elif shape == "bidir":
        _, U = gen_edges(src, nmax, max(1, mmax // 2))
        E = U + [(v, u) for u, v in U if not src.chance(1, 4)]
    elif shape == "cycle+":
        n = max(n, 3)
        E = [(i, (i + 1) % n) for i in range(n)]
        for _ in range(src.int(0, 4)):
            u, v = src.below(n), src.below(n)
            if u != v:
                E.append((u, v))
    elif shape == "tour":
        E = [(u, v) if src.chance(1, 2) else (v, u) for u, v in itertools.combinations(range(n), 2)]
    elif shape == "layer":
        E = [(u, v) for u in range(n) for v in range(u + 1, min(n, u + 3))]
        if src.chance(1, 2):
            E.append((n - 1, 0))
    E = list(dict.fromkeys(E)) or [(0, 1)]
    if len(E) > mmax:
        E = src.sample(E, mmax)
    if src.chance(3, 4):
        E = src.shuffle(E)
    n, E = _compact(n, E)
    perm = src.shuffle(range(n)) if src.chance(1, 2) else list(range(n))
    E = [[perm[u], perm[v]] for u, v in E]
    return dict(n=n, edges=E, kind=src.choice(kinds or LABELS), trav=src.choice(TRAV), src=src.int(-1, n - 1))


class DiLabelled(Labelled):
    def __init__(self, g):
        Labelled.__init__(self, g)
        self.idx = {e: i for i, e in enumerate(self.E)}


class DiOracle(Oracle):
    def __init__(self, n, edges):
        Oracle.__init__(self, n, edges)
        self.ind = np.zeros((self.N, n), dtype=np.int16)
        self.out = np.zeros((self.N, n), dtype=np.int16)
        for i, (u, v) in enumerate(edges):
            self.out[:, u] += self.bit[i]
            self.ind[:, v] += self.bit[i]
