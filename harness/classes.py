"""Adapters of the five collection classes and the reference model (Python
sets of bit masks over the universe)."""

import random

from graphs import TRAV, gen_digraph, gen_graph, labels

CLASSES = ["setset", "GraphSet", "DiGraphSet", "VertexSetSet", "EdgeVertexSetSet"]


# ------------------------------------------------------------ case generation

def gen_universe(src, classes=CLASSES, big=True, nmax=6):
    """-> JSON-able description of a class and its registered universe."""
    cls = src.choice(classes)
    large = big and src.chance(1, 6)
    u = dict(cls=cls)
    # more elements than a byte can number
    wide = 0
    if large and cls in ("setset", "VertexSetSet") and src.chance(1, 6):
        wide = src.int(950, 1008) if src.chance(1, 5) else src.int(250, 400)
    if cls == "setset":
        u["n"] = wide or (src.int(9, 40) if large else src.int(1, nmax))
        u["kind"] = src.choice(["int1", "str", "tuple", "scatter", "neg", "mixed"])
        u["perm"] = order(src, u["n"])
    elif cls in ("GraphSet", "EdgeVertexSetSet"):
        k = 4 if cls == "EdgeVertexSetSet" else nmax
        g = gen_graph(src, nmax=12 if large else k, mmax=30 if large else k + 1, big=False,
                      kinds=None)
        if not large:
            g = trim(g, k if cls == "GraphSet" else 4)
        u["g"] = g
    elif cls == "DiGraphSet":
        g = gen_digraph(src, nmax=8 if large else 4, mmax=20 if large else nmax)
        if not large:
            g = trim(g, nmax)
        u["g"] = g
    else:
        u["n"] = wide or (src.int(9, 30) if large else src.int(2, nmax))
        u["kind"] = src.choice(["int1", "int0", "str", "scatter", "neg", "tuple", "mixed"])
        u["perm"] = order(src, u["n"])
    return u


def order(src, n):
    if not src.chance(1, 2):
        return list(range(n))
    return src.shuffle(range(n)) if n <= 60 else list(range(n))[::-1]


def trim(g, m):
    E = g["edges"][:m]
    used = sorted({v for e in E for v in e})
    mp = {v: i for i, v in enumerate(used)}
    return dict(g, n=len(used), edges=[[mp[a], mp[b]] for a, b in E],
                src=-1 if g["src"] < 0 else g["src"] % len(used))


def universe_size(u):
    if u["cls"] in ("setset", "VertexSetSet"):
        return u["n"]
    m = len(u["g"]["edges"])
    return m + u["g"]["n"] if u["cls"] == "EdgeVertexSetSet" else m


def gen_member(src, u):
    """A random member (mask); edge-and-vertex members are consistent."""
    n = universe_size(u)
    if n > 12:
        k = src.int(0, 5)
        x = 0
        for _ in range(k):
            x |= 1 << src.below(n)
        w = src.below(10)
        if w == 0 or n > 200 and w > 6:
            x = ((1 << n) - 1) ^ x
        elif w == 1:        # a run of elements
            a = src.int(0, n)
            x ^= (1 << src.int(a, n)) - (1 << a)
        elif w == 2:        # many elements
            x = random.Random(src.bits(16)).getrandbits(n)
    else:
        x = src.bits(n)
        w = src.below(4)
        if w == 1:
            x &= src.bits(n)
        elif w == 2:
            x |= src.bits(n)
    if u["cls"] == "EdgeVertexSetSet":
        x = close_ev(u, x)
    return x


def close_ev(u, x):
    m = len(u["g"]["edges"])
    for i, (a, b) in enumerate(u["g"]["edges"]):
        if x >> i & 1:
            x |= 1 << (m + a) | 1 << (m + b)
    return x


def gen_members(src, u, lo=0, hi=8):
    k = src.weighted([(5, src.int(lo, hi)), (1, 0), (1, 1), (1, hi * 2)])
    r = [gen_member(src, u) for _ in range(max(lo, k))]
    if src.chance(1, 4):
        r.append(0)
    return sorted(set(r))


# -------------------------------------------------------------------- adapter

class Cls:
    """One registered universe of one class."""

    def __init__(self, u, register=True):
        import graphillion
        self.u = u
        self.name = u["cls"]
        self.C = getattr(graphillion, self.name)
        self.edges_like = self.name in ("GraphSet", "DiGraphSet", "EdgeVertexSetSet")
        if self.name in ("setset", "VertexSetSet"):
            lab = labels(u["kind"], u["n"])
            self.elems = [lab[i] for i in u["perm"]]
        else:
            g = u["g"]
            self.lab = labels(g["kind"], g["n"])
            self.elems = [(self.lab[a], self.lab[b]) for a, b in g["edges"]]
            self.m = len(self.elems)
            if self.name == "EdgeVertexSetSet":
                self.elems = self.elems + list(self.lab)
        self.n = len(self.elems)
        self.full = (1 << self.n) - 1
        self.index = {}
        for i, e in enumerate(self.elems):
            self.index[e] = i
            if self.name in ("GraphSet", "EdgeVertexSetSet") and i < self.m:
                self.index[(e[1], e[0])] = i
        if register:
            self.register()

    def register(self):
        import graphillion
        if self.name == "setset":
            self.C.set_universe(list(self.elems))
        elif self.name == "VertexSetSet":
            if any(isinstance(v, tuple) for v in self.elems):
                graphillion.Universe.set_vertex_universe(list(self.elems), tuple_vertex=True)
            else:
                self.C.set_universe(list(self.elems))
        else:
            g = self.u["g"]
            src = None if g["src"] < 0 else self.lab[g["src"]]
            E = self.elems[:self.m]
            if self.name == "EdgeVertexSetSet":
                graphillion.GraphSet.set_universe(list(E), traversal=g["trav"], source=src)
            else:
                self.C.set_universe(list(E), traversal=g["trav"], source=src)

    # --- encoding
    def elem(self, i, flip=0):
        e = self.elems[i]
        if flip and self.name in ("GraphSet", "EdgeVertexSetSet") and i < self.m:
            if self.name == "GraphSet" and flip == 3:
                return (e[1], e[0], 7)
            return (e[1], e[0])
        return e

    def member(self, mask, style=0):
        """style: 0 list, 1 set, 2 frozenset, +4: reversed edges, +8 reversed order"""
        l = [self.elem(i, style & 4) for i in range(self.n) if mask >> i & 1]
        if style & 8:
            l.reverse()
        if self.name == "setset":
            return frozenset(l) if style & 2 else set(l)
        k = style & 3
        return l if k in (0, 3) else set(l) if k == 1 else frozenset(l)

    def make(self, masks, style=0):
        if self.name == "setset":
            l = [frozenset(self.member(x, 0)) for x in masks]
            return self.C(l if not style & 1 else [set(x) for x in l])
        if style & 2:
            return self.C({frozenset(self.member(x, style & 4)) for x in masks})
        return self.C([self.member(x, (style >> 2) & 15) for x in masks])

    def mask(self, obj):
        r = 0
        for e in obj:
            if isinstance(e, tuple) and self.edges_like and e not in self.index:
                e = e[:2]
            b = 1 << self.index[e]
            if r & b:
                raise AssertionError("element listed twice in %r" % (obj,))
            r |= b
        return r

    def read(self, c):
        """-> set of masks; the iteration must not repeat a member."""
        l = [self.mask(x) for x in c]
        s = set(l)
        if len(s) != len(l):
            from core import fail
            fail("%s: iteration repeats a member: %r" % (self.name, l[:20]))
        return s

    def has(self, op):
        if op in ("quotient", "remainder", "invert", "flip", "complement", "hitting", "dict", "some"):
            return self.name != "EdgeVertexSetSet"
        if op == "incl":
            return self.name != "setset"
        return True

    NAMES = {
        "setset": dict(),
        "*": dict(set_size="graph_size", subsets="subgraphs", supersets="supergraphs",
                  non_subsets="non_subgraphs", non_supersets="non_supergraphs"),
    }

    def meth(self, c, op):
        if self.name != "setset":
            op = self.NAMES["*"].get(op, op)
            if self.name == "VertexSetSet":
                op = dict(remove_some_element="remove_some_vertex", add_some_element="add_some_vertex",
                          remove_add_some_elements="remove_add_some_vertices").get(op, op)
            else:
                op = dict(remove_some_element="remove_some_edge", add_some_element="add_some_edge",
                          remove_add_some_elements="remove_add_some_edges").get(op, op)
        return getattr(c, op)

    def show(self, masks):
        return [[self.elems[i] for i in range(self.n) if x >> i & 1] for x in sorted(masks)[:4]]


# ---------------------------------------------------------------------- model

def m_quotient(A, B, n=None):
    """{a | for all b in B: a u b in A and a n b = {}}"""
    if not B:
        return None
    r = None
    for b in B:
        q = {a & ~b for a in A if a & b == b}
        r = q if r is None else r & q
    return r


def m_join(A, B):
    return {a | b for a in A for b in B}


def m_meet(A, B):
    return {a & b for a in A for b in B}


def m_remainder(A, B):
    q = m_quotient(A, B)
    if q is None:
        return None
    return A - m_join(q, B)


def m_minimal(A):
    return {a for a in A if not any(b != a and b & a == b for b in A)}


def m_maximal(A):
    return {a for a in A if not any(b != a and b & a == a for b in A)}


def m_hitting(A, n):
    return {x for x in range(1 << n) if all(x & a for a in A)}


def m_subsets(A, B):
    return {a for a in A if any(a & b == a for b in B)}


def m_supersets(A, B):
    return {a for a in A if any(a & b == b for b in B)}


def popcount(x):
    return bin(x).count("1")


def diff(cls, got, want):
    return "%d members, %d expected; not expected: %r; missing: %r" % (
        len(got), len(want), cls.show(got - want), cls.show(want - got))
