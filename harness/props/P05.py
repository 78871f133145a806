"""Linear cost filters against exact integer sums."""
from classes import CLASSES, Cls, diff, gen_member, gen_members, gen_universe, universe_size
from core import fail

ENTROPY = 500
RULE = ("a filter kept some but not all members of a family of at least four members under costs that are not all "
        "equal; distinct by class, universe, family, costs and bounds")
BUDGET = {"quick": 12000, "thorough": 400000}
LO, HI = -(1 << 31), (1 << 31) - 1
KINDS = ["small", "neg", "tied", "unit", "zero", "big", "extreme", "pow", "sparse", "one"]
REL = ["le", "ge", "eq"]


def gen_costs(src, n):
    k = src.choice(KINDS)
    r = []
    for i in range(n):
        if k == "small":
            x = src.int(0, 9)
        elif k == "neg":
            x = 6 - src.int(0, 12)
        elif k == "tied":
            x = src.choice([1, 1, 2, -1])
        elif k == "unit":
            x = 1
        elif k == "zero":
            x = 0 if src.chance(3, 4) else src.int(-3, 3)
        elif k == "big":
            x = (src.below(1 << 31)) * (1 if src.chance(1, 2) else -1)
        elif k == "extreme":
            x = src.choice([HI, LO, HI - 1, LO + 1, 0, 1, -1])
        elif k == "pow":
            x = (1 << min(i, 30)) * (-1 if src.chance(1, 3) else 1)
        elif k == "sparse":
            x = src.choice([0, 0, 0, 1000000, -1000000, 7])
        else:
            x = -(i + 1)
        r.append(max(LO, min(HI, x)))
    return r


def gen(src, tier):
    if src.chance(1, 12):
        n = src.int(10, 34)
        k = src.choice([None, src.int(0, n)])
        mag = src.choice([3, 10, 40])
        costs = [src.int(0, 2 * mag) - src.choice([0, mag]) for _ in range(n)]
        return dict(dp=n, cls=src.choice(["setset", "GraphSet", "DiGraphSet", "VertexSetSet"]), k=k, costs=costs,
                    pos=[src.below(256) for _ in range(3)], off=[src.int(0, 2) - 1 for _ in range(3)])
    u = gen_universe(src, nmax=src.choice([3, 6, 8]))
    n = universe_size(u)
    f = gen_members(src, u, 0, src.choice([4, 12, 30]))
    full = u["cls"] != "EdgeVertexSetSet" and n <= 9 and src.chance(1, 4)
    qs = []
    costs = gen_costs(src, n)
    for _ in range(src.int(1, 5)):
        if src.chance(1, 3):
            costs = gen_costs(src, n)
        elif src.chance(1, 4):
            costs = list(costs)
            costs[src.below(n)] = src.int(-9, 9)
        # a bound near the sum of some member, or arbitrary
        b = src.choice([["m", src.byte(), 0], ["m", src.byte(), 1], ["m", src.byte(), -1], ["a", src.int(-8, 20), 0],
                        ["x", src.choice([0, -1, 1, HI, LO, HI - 1, LO + 1, 1 << 30]), 0]])
        qs.append([src.choice(REL), list(costs), b, src.below(4)])
    return dict(u=u, f=f, full=full, q=qs, flip=src.chance(1, 3), mut=gen_member(src, u) if src.chance(1, 3) else None)


def run_dp(case, st):
    """Families far too large to list: counts against a subset-sum program."""
    import graphillion
    n, cls, k, costs = case["dp"], case["cls"], case["k"], case["costs"]
    C = getattr(graphillion, cls)
    el = [(i, i + 1) for i in range(n)] if cls in ("GraphSet", "DiGraphSet") else list(range(1, n + 1))
    C.set_universe(el)
    c = C({})
    if k is not None:
        c = c.set_size(k) if cls == "setset" else c.graph_size(k)
    tab = {(0, 0): 1}
    for x in costs:
        nt = dict(tab)
        for (j, t), v in tab.items():
            nt[j + 1, t + x] = nt.get((j + 1, t + x), 0) + v
        tab = nt
    by = {}
    for (j, t), v in tab.items():
        if k is None or j == k:
            by[t] = by.get(t, 0) + v
    sums = sorted(by)
    d = dict(zip(el, costs))
    tot = sum(by.values())
    for pos, off in zip(case["pos"], case["off"]):
        b = sums[pos * len(sums) >> 8] + off
        st.units += 1
        want = sum(v for t, v in by.items() if t <= b)
        got = c.cost_le(d, b).len()
        what = "%s: %s of %d elements, costs %r, bound %d" % (cls, "all sets" if k is None else "%d-sets" % k, n, costs, b)
        if got != want:
            fail("%s: cost_le keeps %d, %d qualify" % (what, got, want))
        if cls != "setset":
            ge, eq = c.cost_ge(d, b).len(), c.cost_eq(d, b).len()
            if ge != tot - want + by.get(b, 0) or eq != by.get(b, 0):
                fail("%s: cost_ge keeps %d, cost_eq %d, expected %d, %d" % (
                    what, ge, eq, tot - want + by.get(b, 0), by.get(b, 0)))
        if 0 < want < tot:
            st.nontrivial = True
    st.tag("subset-sum counts")


def run(case, st):
    if "dp" in case:
        return run_dp(case, st)
    K = Cls(case["u"])
    fam = set(case["f"])
    if case["full"]:
        c = K.C({})
        fam = set(range(1 << K.n))
    else:
        c = K.make(case["f"])
    other = K.make(case["f"][: len(case["f"]) // 2])
    ofam = set(case["f"][: len(case["f"]) // 2])
    for i, (rel, costs, b, style) in enumerate(case["q"]):
        cost = {x: sum(costs[j] for j in range(K.n) if x >> j & 1) for x in fam | ofam}
        if b[0] == "m" and fam:
            bound = sorted(cost[x] for x in fam)[b[1] % len(fam)] + b[2]
        else:
            bound = b[1] if b[0] != "m" else 0
        bound = max(LO, min(HI, bound))
        d = {K.elem(j, 4 if case["flip"] else 0): costs[j] for j in (range(K.n) if style & 1 else reversed(range(K.n)))}
        keep = dict(d)
        for coll, fm in ((c, fam), (other, ofam)) if style & 2 else ((c, fam),):
            rels = [rel] if K.name != "setset" else ["le"]
            for r in rels:
                want = {x for x in fm if (cost[x] <= bound if r == "le" else cost[x] >= bound if r == "ge"
                                          else cost[x] == bound)}
                got_c = getattr(coll, "cost_" + r)(d, bound)
                st.units += 1
                got = K.read(got_c)
                what = "%s.cost_%s(%r, %d)" % (K.name, r, [(K.elems[j], costs[j]) for j in range(K.n)][:12], bound)
                if got != want:
                    fail("%s: %s" % (what, diff(K, got, want)))
                if K.name != "setset" and type(got_c) is not K.C:
                    fail("%s: a %s is returned" % (what, type(got_c)))
                if d != keep:
                    fail("%s changes the costs given to it" % what)
                if K.read(coll) != fm:
                    fail("%s changes the collection" % what)
                st.tag("cost_" + r)
                if len(fm) >= 4 and 0 < len(want) < len(fm) and len(set(costs)) > 1:
                    st.nontrivial = True
                if max(map(abs, cost.values()), default=0) > HI:
                    st.tag("sums beyond 32 bits")
        if K.name != "setset":
            # the three filters split the collection
            le, ge, eq = c.cost_le(d, bound), c.cost_ge(d, bound), c.cost_eq(d, bound)
            st.units += 1
            if not (le & ge == eq and le | ge == c):
                fail("%s: cost_le, cost_ge and cost_eq at %d do not fit together" % (K.name, bound))
        if case["mut"] is not None and i == 0:
            c.add(K.member(case["mut"], 1))
            fam = fam | {case["mut"]}
    st.tag("class " + K.name)
