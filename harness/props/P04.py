"""Cardinalities at every magnitude, against exact integers.

A family is kept in the model as (T, D): the cylinder over a truth table T on
`a` of the n elements, changed in the finitely many explicit members D.  Both
parts are closed under the operations used, and the exact size follows."""
import itertools
import sys
from math import comb

from core import fail

ENTROPY = 400
RULE = ("at least one checked collection had 2^31 or more members and a size that is no power of two; distinct by "
        "class, universe size, active elements and operations")
BUDGET = {"quick": 8000, "thorough": 200000}
# The operation cache of the decision-diagram package is direct-mapped and can
# thrash on wide universes: a case that runs out of time shows no wrong number.
CPU_LIMIT = 12
TIMEOUT_OK = True
FREE = [0, 1, 3, 6, 20, 28, 29, 30, 31, 32, 33, 50, 51, 52, 53, 54, 58, 59, 60, 61, 62, 63, 64, 65, 66, 90, 100,
        120, 126, 127, 128, 129, 160, 200, 254, 256, 257, 300, 420]
HUGE = [512, 700, 1000, 1500, 2000]
# sizes of more than 4300 decimal digits: only made, not operated on (8192 levels are the package's limit)
WIDE = [8100, 14270, 14283, 14284, 14285, 14286, 14287, 14300, 15000, 16384, 20000]
OPS = ["or", "and", "sub", "xor", "not", "flip", "incl", "excl", "add", "add", "discard", "cyl", "size", "smaller",
       "larger", "min", "sample", "minus1"]


def gen(src, tier):
    if src.chance(1, 150):
        n = src.choice(WIDE) + src.int(-3, 3)
        return dict(cls=src.choice(["setset", "VertexSetSet", "GraphSet"]), n=n, trav="as-is",
                    wide=[[src.choice([0, n - 1, src.below(n), src.below(n)]) for _ in range(src.int(0, 9))]
                          for _ in range(2)])
    a = src.int(1, 6)
    free = src.choice(FREE) if not src.chance(1, 24) else src.choice(HUGE)
    n = a + free
    act = sorted(src.sample(range(n), a)) if n < 80 else sorted({src.below(n) for _ in range(a)})
    a = len(act)
    init = [src.bits(1 << a) for _ in range(3)]
    ops = []
    for _ in range(src.int(2, 14)):
        o = src.choice(OPS)
        ops.append([o, src.below(3), src.below(3), src.below(3), src.below(n), src.below(n), src.bits(a), src.byte()])
    return dict(cls=src.choice(["setset", "setset", "GraphSet", "GraphSet", "DiGraphSet", "VertexSetSet"]), n=n, act=act,
                init=init, ops=ops, trav=src.choice(["as-is", "greedy", "bfs"]))


def C_(n, act, t, *ops):
    return dict(cls="setset", n=n, act=act, init=[t, 0, 1], ops=[list(o) for o in ops], trav="as-is")


# sizes right at the machine-word boundaries, hit exactly
FIXED = []
for _n in (8, 16, 31, 32, 33, 52, 53, 54, 61, 62, 63, 64, 65, 127, 128, 129, 256):
    for _cls in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet"):
        for _d in ("minus1", "add"):
            # power set, power set minus one; half plus one; three quarters
            FIXED.append(dict(cls=_cls, n=_n, act=[0, 1], init=[15, 3, 7], trav="as-is",
                              ops=[["minus1", 0, 0, 0, 0, 0, 0, 0], [_d, 1, 1, 1, _n - 1, 1, 3, 1],
                                   [_d, 2, 2, 2, _n - 1, 1, 3, 1], ["larger", 0, 0, 0, 0, 0, 0, 0],
                                   ["size", 0, 0, 0, 1, 0, 0, 0]]))
for _n in (8200, 14282, 14283, 14284, 14285, 14286, 20000):
    for _cls in ("setset", "VertexSetSet"):
        FIXED.append(dict(cls=_cls, n=_n, trav="as-is", wide=[[5, 700], [11, _n - 1]]))


class Fam:
    """(T, D) over n elements, with active positions act."""

    def __init__(self, n, act, T, D=()):
        self.n, self.act, self.T, self.D = n, act, frozenset(T), frozenset(D)

    def proj(self, x):
        return sum(1 << j for j, p in enumerate(self.act) if x >> p & 1)

    def __contains__(self, x):
        return (self.proj(x) in self.T) != (x in self.D)

    def op(self, other, f):
        N = range(1 << len(self.act))
        T = {t for t in N if f(t in self.T, t in other.T)}
        D = {x for x in self.D | other.D if f(x in self, x in other) != (self.proj(x) in T)}
        return Fam(self.n, self.act, T, D)

    def size(self):
        r = len(self.T) << (self.n - len(self.act))
        return r + sum(1 if x in self else -1 for x in self.D)

    def by_size(self, k):
        free = self.n - len(self.act)
        r = sum(comb(free, k - bin(t).count("1")) for t in self.T if k >= bin(t).count("1"))
        return r + sum((1 if x in self else -1) for x in self.D if bin(x).count("1") == k)

    def with_(self, x, inside):
        if (x in self) == inside:
            return self
        return Fam(self.n, self.act, self.T, self.D ^ {x})

    def flip(self, p):
        b = 1 << p
        T = self.T
        if p in self.act:
            j = 1 << self.act.index(p)
            T = {t ^ j for t in T}
        return Fam(self.n, self.act, T, {x ^ b for x in self.D})


class U:
    def __init__(self, case):
        import graphillion as g
        n, cls = case["n"], case["cls"]
        self.C = C = getattr(g, cls)
        self.cls = cls
        if cls == "setset":
            self.el = list(range(1, n + 1))
            C.set_universe(self.el)
        elif cls == "VertexSetSet":
            self.el = ["v%d" % i for i in range(n)]
            C.set_universe(self.el)
        else:
            self.el = [(i, i + 1) for i in range(n)]
            C.set_universe(self.el, traversal=case["trav"], source=0)
        self.idx = {e: i for i, e in enumerate(self.el)}
        self.n = n

    def obj(self, x):
        l = [self.el[i] for i in range(self.n) if x >> i & 1]
        return set(l) if self.cls == "setset" else l

    def mask(self, o):
        return sum(1 << self.idx[e] for e in o)

    def cyl(self, case, T):
        r = self.C()
        for t in T:
            d = {"include": [], "exclude": []}
            for j, p in enumerate(case["act"]):
                d["include" if t >> j & 1 else "exclude"].append(self.el[p])
            if self.cls == "setset":
                d = {k: set(v) for k, v in d.items()}
            r |= self.C(d)
        return r


def check_len(c, want, what, st):
    st.units += 1
    got = c.len()
    if got != want or type(got) is not int:
        fail("%s: len() is %r, exactly %d expected" % (what, got, want))
    try:
        l = len(c)
    except OverflowError:
        if want <= sys.maxsize:
            fail("%s: the built-in length raises OverflowError for %d members" % (what, want))
    else:
        if l != want:
            fail("%s: the built-in length is %d, %d expected" % (what, l, want))
    if bool(c) != (want > 0):
        fail("%s: truth value %s for %d members" % (what, bool(c), want))
    if want >= 1 << 31 and want & (want - 1):
        st.nontrivial = True
        st.tag("beyond 2^%d" % max(b for b in (31, 32, 53, 63, 64, 128, 256, 512) if want >= 1 << b))


def run(case, st):
    u = U(case)
    if "wide" in case:
        inc = set(case["wide"][0])
        exc = set(case["wide"][1]) - inc    # an overlap is refused
        d = {"include": [u.el[i] for i in inc], "exclude": [u.el[i] for i in exc]}
        if case["cls"] == "setset":
            d = {k: set(v) for k, v in d.items()}
        want = 1 << (u.n - len(inc | exc))
        check_len(u.C(d), want, "%s of %d elements, including %r, excluding %r" % (case["cls"], u.n, inc, exc), st)
        st.nontrivial = True
        st.tag("wide")
        return
    n, act = case["n"], case["act"]
    st.tag(case["cls"])
    slots, M = [], []
    for t in case["init"]:
        T = [i for i in range(1 << len(act)) if t >> i & 1]
        slots.append(u.cyl(case, T))
        M.append(Fam(n, act, T))
        check_len(slots[-1], M[-1].size(), "%s of %d elements, table %r on %r" % (case["cls"], n, T, act), st)
    for op in case["ops"]:
        o, a, b, d, e1, e2, t, by = op
        s, m = slots[a], M[a]
        what = "%s of %d elements, %s" % (case["cls"], n, op)
        # an explicit member built from the table row t and two more elements
        x = sum(1 << p for j, p in enumerate(act) if t >> j & 1) | 1 << e1 | (1 << e2 if by & 1 else 0)
        if by & 6 == 6:
            x = ((1 << n) - 1) ^ x
        if o in ("or", "and", "sub", "xor"):
            f = {"or": lambda p, q: p or q, "and": lambda p, q: p and q, "sub": lambda p, q: p and not q,
                 "xor": lambda p, q: p != q}[o]
            slots[d] = {"or": lambda: s | slots[b], "and": lambda: s & slots[b], "sub": lambda: s - slots[b],
                        "xor": lambda: s ^ slots[b]}[o]()
            M[d] = m.op(M[b], f)
            a = d
        elif o == "not":
            slots[d], M[d] = ~s, m.op(m, lambda p, q: not p)
            a = d
        elif o == "flip":
            s.flip(u.el[e1])
            M[a] = m.flip(e1)
        elif o in ("incl", "excl"):
            p = act[by % len(act)]
            j = act.index(p)
            if case["cls"] == "setset":
                c = (s.supersets if o == "incl" else s.non_supersets)(u.el[p])
            else:
                c = (s.including if o == "incl" else s.excluding)(u.el[p])
            ref = Fam(n, act, [q for q in range(1 << len(act)) if bool(q >> j & 1) == (o == "incl")])
            slots[d], M[d] = c, m.op(ref, lambda p_, q_: p_ and q_)
            a = d
        elif o == "add":
            s.add(u.obj(x))
            M[a] = m.with_(x, True)
        elif o == "discard":
            s.discard(u.obj(x))
            M[a] = m.with_(x, False)
        elif o == "minus1":
            if not m.size():
                continue
            g = u.mask(s.pop())
            if g not in m:
                fail("%s: popped something that was not in it" % what)
            M[a] = m.with_(g, False)
        elif o == "cyl":
            T = [t]
            slots[a], M[a] = u.cyl(case, T), Fam(n, act, T)
        elif o in ("size", "smaller", "larger"):
            k = (e1 if by & 1 else by % 6) if n <= 140 else by % 4
            if o == "size":
                want = m.by_size(k)
                c = s.len(k) if by & 8 else getattr(s, "set_size" if case["cls"] == "setset" else "graph_size")(k)
            else:
                tot = sum(m.by_size(i) for i in range(k)) if o == "smaller" else m.size() - sum(
                    m.by_size(i) for i in range(k + 1))
                want = tot
                c = getattr(s, o)(k)
            check_len(c, want, what + " k=%d" % k, st)
            st.tag(o)
            continue
        elif o == "min":
            # the three size selections split the family
            k = (e1 if n <= 140 else by % 4)
            p, q, r = s.smaller(k).len(), s.len(k).len(), s.larger(k).len()
            st.units += 1
            if p + q + r != m.size():
                fail("%s: %d smaller + %d equal + %d larger than %d, of %d" % (what, p, q, r, k, m.size()))
            continue
        elif o == "sample":
            if not m.size():
                continue
            st.units += 1
            its = [s.rand_iter()] if m.size() < 10 ** 15 or by & 1 else [iter(s)]
            for it in its:
                for g in itertools.islice(it, 3):
                    if u.mask(g) not in m:
                        fail("%s: yields a set that is not a member" % what)
            if (u.obj(x) in s) != (x in m):
                fail("%s: membership of a set is %s" % (what, x not in m))
            continue
        check_len(slots[a], M[a].size(), what, st)
        st.tag(o)
    for i in range(3):
        sz = M[i].size()
        check_len(slots[i], sz, "%s of %d elements at the end" % (case["cls"], n), st)
        if sz <= 64:
            l = [u.mask(g) for g in slots[i]]
            st.units += 1
            if len(l) != sz or len(set(l)) != sz or not all(g in M[i] for g in l):
                fail("%s: enumeration yields %d sets, %d members" % (case["cls"], len(l), sz))
