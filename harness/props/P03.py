"""Iteration: completeness, uniqueness, order, independence of later changes, uniform first draw."""
import gc

from classes import Cls, diff, gen_member, gen_members, gen_universe, universe_size
from core import fail
from graphs import Labelled

ENTROPY = 500
RULE = ("a family of at least four members was iterated in a case with weights that are not all equal, or with the "
        "collection changed while an iterator was live; distinct by class, universe, family, weights and schedule")
BUDGET = {"quick": 10000, "thorough": 250000}
KINDS = ["plain", "rand", "min", "max", "min", "max"]
WEIGHTS = ["int", "dyadic", "neg", "tied", "zero", "partial", "float", "big", "none", "foreign", "default"]


def gen_weights(src, n):
    k = src.choice(WEIGHTS)
    if k == "none":
        return [k, None]
    w = []
    for i in range(n):
        if k in ("int", "foreign"):
            x = src.int(0, 9)
        elif k == "dyadic":
            x = (src.byte() - 128) / 8
        elif k == "neg":
            x = -src.int(0, 6)
        elif k == "tied":
            x = src.int(0, 1)
        elif k == "zero":
            x = 0 if src.chance(3, 4) else src.int(-2, 2)
        elif k == "partial":
            x = None if src.chance(1, 2) else src.int(-4, 4)
        elif k == "float":
            x = src.below(2000) / 700 - 1
        elif k == "big":
            x = src.choice([1, -1]) * (src.below(1 << 16) << src.int(0, 20))
        else:
            x = None if src.chance(1, 3) else (src.byte() - 128) / 4
        w.append(x)
    return [k, w]


HUGE = [3, 20, 40, 64, 100, 200, 400, 1022, 1024, 1030, 1100]


def gen_huge(src):
    """A union of cylinders over a few elements of a universe of any size: the first members have known odds."""
    free = src.choice(HUGE if src.chance(1, 4) else HUGE[:6])     # a draw costs n^2
    a = src.int(1, 4)
    n = a + free
    pos = src.sample(range(n), a) if n < 60 else [src.choice([0, n - 1, src.below(n), src.below(min(n, 60))]) for _ in
                                                  range(a)]
    pos = sorted(set(pos))
    return dict(huge=dict(n=n, act=pos, T=src.bits(1 << len(pos)), cls=src.choice(["setset", "GraphSet", "VertexSetSet",
                                                                                     "DiGraphSet"])), trav="as-is")


def gen(src, tier):
    if src.chance(1, 60):
        return gen_huge(src)
    if src.chance(1, 300):
        n = src.int(10, 16)
        return dict(many=[n, [src.below(1 << n) for _ in range(src.int(0, 30))], src.int(1, 6)])
    u = gen_universe(src, nmax=7)
    n = universe_size(u)
    fam = gen_members(src, u, 0, src.choice([2, 6, 14, 24]))
    its = []
    for _ in range(src.int(1, 4)):
        k = src.choice(KINDS)
        its.append([k, gen_weights(src, n) if k in ("min", "max") else None])
    sched = [src.below(len(its) + 1) for _ in range(src.int(0, 20))]
    muts = [[src.below(6), gen_member(src, u), src.below(n)] for _ in range(src.int(0, 3))]
    c = dict(u=u, f=fam, its=its, sched=sched, muts=muts, reg=gen_weights(src, n)[1] if src.chance(1, 2) else None, regs=src.below(4))
    if src.chance(1, 40):
        c["uniform"] = src.int(40, 400)
    return c


FIXED = [dict(u=dict(cls="setset", n=n, kind="int1", perm=list(range(n))), f=f, its=[["rand", None]], sched=[], muts=[],
              reg=None, uniform=4000)
         for n, f in ((3, [0, 1, 2, 3, 4, 5, 6, 7]), (4, [1, 2, 4, 8]), (4, [0, 15]), (5, [1, 3, 7, 15, 31, 16]),
                      (5, [0, 1, 2, 3, 4, 5, 6, 7, 16]))]

FIXED += [dict(many=[n, [0, 1, 5], 2]) for n in (10, 11, 14)]

for _n, _act, _T in ((1030, [0, 1], 7), (1100, [0, 1099], 11), (300, [3, 77, 200], 0b10010111), (70, [0, 69], 13)):
    for _cls in ("setset",):
        FIXED.append(dict(huge=dict(n=_n, act=_act, T=_T, cls=_cls), trav="as-is"))


def run_huge(case, st):
    from props.P04 import U
    h = case["huge"]
    n, act = h["n"], h["act"]
    u = U(dict(h, trav="as-is"))
    T = [t for t in range(1 << len(act)) if h["T"] >> t & 1]
    c = u.cyl(h, T)
    what = "%s of %d elements, the rows %r on the elements %r" % (h["cls"], n, T, act)
    if not T:
        if next(c.rand_iter(), None) is not None:
            fail("%s: the empty collection has a random member" % what)
        return
    draws = 60 if n < 600 else 48
    cnt, rows, tot = [0] * n, {}, 0
    free = [i for i in range(n) if i not in act]
    for _ in range(draws):
        x = u.mask(next(c.rand_iter()))
        r = sum(1 << j for j, p in enumerate(act) if x >> p & 1)
        if r not in T:
            fail("%s: the first random member is in none of the rows" % what)
        rows[r] = rows.get(r, 0) + 1
        for i in free:
            if x >> i & 1:
                cnt[i] += 1
                tot += 1
    st.units += 1
    st.nontrivial = True
    st.tag("uniform first draw, %s" % ("beyond 2^1000" if n > 1000 else "large"))
    # each bound is off with probability below 1e-10 under the uniform law
    for i in free:
        if not 0 < cnt[i] < draws:
            fail("%s: %d of %d random first members contain element %d" % (what, cnt[i], draws, i))
    N = draws * len(free)
    if abs(tot - N / 2) > 4 * N ** 0.5 + 2:
        fail("%s: random first members contain %.4f of the free elements, half expected" % (what, tot / N))
    for r in T:
        e = draws / len(T)
        if abs(rows.get(r, 0) - e) > 8 * (e * (1 - 1 / len(T))) ** 0.5 + 6:
            fail("%s: %d of %d random first members are in row %d, of %d rows alike" % (what, rows.get(r, 0), draws, r,
                                                                                       len(T)))


def run_many(case, st):
    """Random iteration of collections of thousands of members."""
    from graphillion import setset
    n, out, k = case["many"]
    setset.set_universe(list(range(n)))
    c = setset({})
    out = set(out)
    for x in out:
        c.discard({i for i in range(n) if x >> i & 1})
    want = 2 ** n - len(out)
    seen = set()
    # repetition, were it possible, would show up with probability 1 - exp(-t*t/2N) at least
    t = min(want, 6 * int(want ** 0.5) + 40 * k)
    for s in c.rand_iter():
        x = sum(1 << i for i in s)
        if x in seen:
            fail("random iteration of %d members repeats %r within %d steps" % (want, sorted(s), len(seen)))
        if x in out or x >> n:
            fail("random iteration yields %r, which is no member" % sorted(s))
        seen.add(x)
        if len(seen) >= t:
            break
    if len(seen) < t:
        fail("random iteration of %d members ends after %d" % (want, len(seen)))
    if len(c) != want:
        fail("random iteration changed the collection")
    st.units += 1
    st.nontrivial = True
    st.tag("random iteration of thousands")


def run(case, st):
    if "many" in case:
        return run_many(case, st)
    if "huge" in case:
        return run_huge(case, st)
    import graphillion
    K = Cls(case["u"], register=False)
    reg = case["reg"]
    wreg = [1] * K.n
    if reg and K.name != "setset":
        # weights registered with the universe
        style = case.get("regs", 0)
        U = graphillion.Universe
        inline = [w if style in (0, 2) and (style == 0 or i % 2) and
                  (K.name != "EdgeVertexSetSet" or i < K.m) else None for i, w in enumerate(reg)]
        table = None
        if style:
            table = {}
            for i, w in enumerate(reg):
                if w is not None and inline[i] is None:
                    table[K.elem(i, style == 3)] = w
                elif inline[i] is not None and i % 3:
                    table[K.elem(i)] = 99       # what comes along with the element takes priority
        wreg = [1 if w is None else w for w in reg]
        if K.name == "VertexSetSet":
            E = [(e, inline[i]) if inline[i] is not None else (e,) if isinstance(e, tuple) or i % 4 == 1 else e
                 for i, e in enumerate(K.elems)]
            if style == 1:
                U.set_vertex_universe(list(K.elems), weights=table, tuple_vertex=True)
            elif style:
                U.set_vertex_universe(E, weights=table)
            else:
                K.C.set_universe(E)
            want = [(e, w) if w is not None and w != 1 else e for e, w in zip(K.elems, reg)]
            if K.C.universe() != want:
                fail("vertex universe %r registered with weights %r, reported as %r" % (K.elems, reg, K.C.universe()))
        else:
            g = case["u"]["g"]
            src = None if g["src"] < 0 else K.lab[g["src"]]
            E = [e + (inline[i],) if inline[i] is not None else e for i, e in enumerate(K.elems[:K.m])]
            if K.name == "DiGraphSet":
                if style:
                    E = [e + (reg[i],) if reg[i] is not None else e for i, e in enumerate(K.elems[:K.m])]
                K.C.set_universe(E, traversal=g["trav"], source=src)
            else:
                U.set_universe(E, traversal=g["trav"], source=src, weights=table)
                if K.name == "EdgeVertexSetSet" and style == 0:     # no way to give weights of vertices
                    wreg = wreg[:K.m] + [1] * (K.n - K.m)
    else:
        K.register()
    fam = set(case["f"])
    c = K.make(case["f"])
    live = []
    for kind, w in case["its"]:
        wk, wv = w if w else (None, None)
        if kind == "plain":
            it = iter(c)
        elif kind == "rand":
            it = c.rand_iter()
        else:
            f = c.min_iter if kind == "min" else c.max_iter
            if wv is None:
                it = f()
                vec = wreg if K.name != "setset" else [1] * K.n
            else:
                d = {K.elems[i]: x for i, x in enumerate(wv) if x is not None}
                if wk == "foreign":
                    d["not an element"] = 5
                if wk == "default" and K.name == "setset":
                    it = f(d, 3)
                    vec = [3 if x is None else x for x in wv]
                else:
                    it = f(d)
                    vec = [1 if x is None else x for x in wv]
            st.tag("%s %s" % (kind, wk))
        live.append(dict(kind=kind, it=it, got=[], vec=vec if kind in ("min", "max") else None, done=False, w=w))

    def step(l):
        if l["done"]:
            return
        try:
            l["got"].append(K.mask(next(l["it"])))
        except StopIteration:
            l["done"] = True

    for l in live:
        step(l)
    muts = list(case["muts"])
    c2 = c
    for x in case["sched"]:
        if x < len(live):
            step(live[x])
        elif muts and c2 is not None:
            k, m, e = muts.pop()
            if k == 0:
                c2.clear()
            elif k == 1:
                c2.add(K.member(m, 1))
            elif k == 2:
                c2.discard(K.member(m, 1))
            elif k == 3 and K.has("flip"):
                c2.flip(K.elem(e))
            elif k == 4:
                c = c2 = None
                gc.collect()
            else:
                c2 |= K.make([m])
            st.tag("changed while live")
            if len(fam) >= 4:
                st.nontrivial = True
    for l in live:
        while not l["done"]:
            step(l)
            if len(l["got"]) > len(fam) + 5:
                break
        st.units += 1
        got = l["got"]
        what = "%s %s iteration with weights %r" % (K.name, l["kind"], l["w"])
        if len(set(got)) != len(got) or set(got) != fam:
            fail("%s yields %d sets (%d different), %s" % (what, len(got), len(set(got)), diff(K, set(got), fam)))
        if l["vec"]:
            vec = l["vec"]
            sums = [sum(vec[i] for i in range(K.n) if x >> i & 1) for x in got]
            tol = 1e-9 * (1 + sum(abs(v) for v in vec))
            for a, b in zip(sums, sums[1:]):
                if (b - a if l["kind"] == "min" else a - b) < -tol:
                    fail("%s: total weights come as %r" % (what, sums[:30]))
            if len(fam) >= 4 and len(set(vec)) > 1:
                st.nontrivial = True
    if case.get("uniform") and len(fam) > 1:
        c = K.make(case["f"])
        per = case["uniform"] * 5
        cnt = {}
        for _ in range(per * len(fam)):
            x = K.mask(next(c.rand_iter()))
            cnt[x] = cnt.get(x, 0) + 1
        st.units += 1
        st.tag("uniform first draw")
        for x in fam:
            if abs(cnt.get(x, 0) - per) > 8 * per ** 0.5 + 6:
                fail("%s: %d of %d random first members are %r (family of %d)" % (
                    K.name, cnt.get(x, 0), per * len(fam), K.show([x]), len(fam)))
    st.tag("class " + K.name)
