"""The number of worker threads, and repetition, make no difference to any search."""
import os
import random

from core import fail
from difamilies import DFAM
from families import FAM, METHOD
from graphs import TRAV
from props import P21

ENTROPY = 460
RULE = ("a search of the case has at least 200 members on a universe of at least 12 edges and was run with at least two "
        "different thread counts on two or more processors; distinct by graph, order, searches and thread counts")
BUDGET = {"quick": 2400, "thorough": 24000}
CPU_LIMIT = 100
MEM_GB = 8
TIMEOUT_OK = True       # a large diagram is slow, not wrong

EXTRA = ["partitions", "balanced", "induced", "winduced", "reliability", "cliques", "bicliques", "forbidden",
         "vertexsets"]


def gen_mid(src, tier, di):
    """Graphs with frontiers wide enough for several workers."""
    if src.chance(1, 3):
        g = P21.gen_big(src, tier, di)
        if len(g["edges"]) <= 32 and g["shape"] not in ("caterpillar", "tree", "star", "bip2"):
            return g
    deep = tier == "thorough"
    n = src.int(6, 9 if not deep else 10)
    shape = src.choice(["random", "random", "grid", "complete", "bip"])
    if shape == "grid":
        r, c = src.choice([(3, 3), (3, 4), (4, 4), (3, 5)])
        n = r * c
        E = [(i, i + r) for i in range(n - r)] + [(i, i + 1) for i in range(n) if i % r < r - 1]
    elif shape == "complete":
        n = min(n, 6)
        E = [(u, v) for v in range(n) for u in range(v)]
    elif shape == "bip":
        a = src.int(2, 4)
        n = a + src.int(3, 5)
        E = [(u, v) for u in range(a) for v in range(a, n)]
    else:
        ps = [(u, v) for v in range(n) for u in range(v)]
        E = [(src.below(v), v) for v in range(1, n)]
        E += [p for p in src.sample(ps, src.int(n, min(len(ps), 20)))]
        E = sorted(set(E))
    if di:
        out = []
        for u, v in E:
            w = src.below(4)
            out += [(u, v), (v, u)] if w == 3 else [(u, v)] if w < 2 else [(v, u)]
        E = out[:24]
    used = sorted({v for e in E for v in e})
    mp = {v: i for i, v in enumerate(used)}
    n, E = len(used), [(mp[u], mp[v]) for u, v in E]
    seq = list(range(len(E)))
    if src.chance(1, 2):
        seq = src.shuffle(seq)
    return dict(n=n, edges=E, shape=shape, seq=seq, flip=0 if di else src.bits(len(E)),
                kind=src.choice(["int1", "int0", "v", "tuple"]), trav=src.choice(TRAV), src=-1)


def gen(src, tier):
    di = src.chance(1, 6)
    g = gen_mid(src, tier, di)
    n, m = g["n"], len(g["edges"])
    gg = dict(n=n, edges=g["edges"])
    fam = DFAM if di else FAM
    qs = []
    for _ in range(src.int(1, 3)):
        if not di and src.chance(2, 5):
            nm = src.choice(EXTRA)
            if nm == "forbidden" and m > 20:
                nm = "partitions"
            if nm == "partitions":
                lo = src.int(1, 4)
                a = src.choice([None, [lo, lo + src.int(0, 2)]])
            elif nm == "balanced":
                a = [src.int(1, 4), src.int(0, 6), src.bits(30)]
            elif nm == "winduced":
                w = [src.int(0, 6) for _ in range(n)]
                lo = src.int(0, 3 * n)
                a = [w, lo, lo + src.int(0, 2 * n)]
            elif nm == "reliability":
                a = [src.sample(range(n), src.int(2, min(5, n))), src.int(1, 9)]
            elif nm in ("cliques", "bicliques"):
                a = src.int(2, 4)
            elif nm == "forbidden":
                a = src.choice(["cycles", "paths3", "matchings2", "star"])
            elif nm == "vertexsets":
                a = src.choice(["independent_sets", "vertex_covers", "dominating_sets", "cliques"])
            else:
                a = None
            qs.append([nm, a, 0, 1])
        else:
            nm = src.choice(list(fam))
            if m > 24 and not di:
                nm = src.choice([x for x in P21.UND if x in FAM])
            a = fam[nm][0](src, gg)
            if nm == "degree_distribution_graphs":
                a = [[list(p) for p in a[0]], a[1]]
            # 0: everything; 1: within the previous answer; 2, 3: within another collection
            qs.append([nm, a, src.below(4), 0])
    T = src.sample([2, 3, 4, 5, 7, 8, 16], src.int(1, 3))
    return dict(di=int(di), g=g, q=qs, T=T, reps=src.int(1, 2), s=src.bits(30), one=src.below(3), msg=int(src.chance(1, 5)))


def extra(nm, a, L, G, seed):
    """-> a collection, or a number"""
    from graphillion import VertexSetSet
    if nm == "partitions":
        return G.partitions() if a is None else G.partitions(num_comp_lb=a[0], num_comp_ub=a[1])
    if nm == "balanced":
        r = random.Random(a[2])
        return G.balanced_partitions(weight_list={v: r.randint(1, 5) for v in L.lab}, lower=a[1], num_comps=a[0])
    if nm == "induced":
        return G.induced_graphs()
    if nm == "winduced":
        return G.weighted_induced_graphs(dict(zip(L.lab, a[0])), a[1], a[2])
    if nm == "reliability":
        return G.reliability({e: a[1] / 10 for e in L.E}, [L.lab[v] for v in a[0]])
    if nm == "cliques":
        return G.cliques(a)
    if nm == "bicliques":
        return G.bicliques(a, a)
    if nm == "forbidden":
        if a == "cycles":
            x = G.cycles()
        elif a == "paths3":
            x = G.graphs(vertex_groups=[[]], degree_constraints={v: range(0, 3) for v in L.lab}, no_loop=True).graph_size(3)
        elif a == "matchings2":
            x = G.matchings().graph_size(2)
        else:
            x = G.degree_distribution_graphs({0: G.DegreeDistribution_Any, 1: 3, 3: 1}, True)
        return G.forbidden_induced_subgraphs(x)
    if nm == "vertexsets":
        f = getattr(VertexSetSet, a)
        return f(list(L.E))
    raise AssertionError(nm)


def aloud(C, go):
    """go() with progress messages shown; they belong to standard error, and to nothing else."""
    old, nul, tmp = os.dup(2), os.open(os.devnull, os.O_WRONLY), os.dup(1)
    rd, wr = os.pipe()
    os.set_blocking(rd, False)
    os.dup2(nul, 2)
    os.dup2(wr, 1)
    was = C.show_messages(True)
    try:
        x = go()
    finally:
        on = C.show_messages(False)
        off = C.show_messages(bool(was))
        os.dup2(old, 2)
        os.dup2(tmp, 1)
        try:
            out = os.read(rd, 200)
        except BlockingIOError:
            out = b""
        for fd in (old, nul, tmp, rd, wr):
            os.close(fd)
    if was or not on or off:
        fail("show_messages reports the settings %r, %r, %r instead of False, True, False" % (was, on, off))
    if out:
        fail("a search with messages shown writes %r to standard output" % out)
    return x


def run(case, st):
    import graphillion
    di = case["di"]
    G = graphillion.DiGraphSet if di else graphillion.GraphSet
    L = P21.Big(case["g"])
    fam = DFAM if di else FAM
    GS = graphillion.GraphSet
    L.set_universe(G)
    procs = GS.omp_get_num_procs()
    st.tag("processors", procs)
    prev = None
    r = random.Random(case["s"])

    def set_threads(t):
        GS.omp_set_num_threads(t)
        x = GS.omp_get_max_threads()
        if x != t:
            fail("omp_get_max_threads() is %d after omp_set_num_threads(%d)" % (x, t))

    for nm, a, sp, ex in case["q"]:
        kw = {}
        what = "%s%s %s on %s" % ("DiGraphSet." if di else "", nm, a, case["g"])
        set_threads(1)
        if not ex:
            if sp == 1 and prev is not None:
                kw["graphset"] = prev
            elif sp == 2:
                kw["graphset"] = G({"include": [], "exclude": [L.E[r.randrange(L.m)]]})
            elif sp == 3:
                kw["graphset"] = G({}).excluding(G([L.graph(r.getrandbits(L.m) & r.getrandbits(L.m)) for _ in range(3)]))
            call = fam[nm][1]
            f = getattr(G, nm if di else METHOD[nm])

            def go():
                return call(f, L, a, **kw)
        else:
            def go():
                return extra(nm, a, L, G, case["s"])
        aff = None
        if case["one"] == 0 and procs >= 2:
            # the reference is computed by the single-processor code path
            aff = os.sched_getaffinity(0)
            os.sched_setaffinity(0, {min(aff)})
            st.tag("reference on one processor")
        try:
            ref = go()
        finally:
            if aff:
                os.sched_setaffinity(0, aff)
        num = isinstance(ref, (int, float))
        ln = 0 if num else ref.len()
        dump = None if num or L.m > 120 else ref.dumps()
        some = None
        if not num:
            some = list(zip(range(5), ref))
        st.tag(nm)
        for t in [1] + case["T"]:
            for _ in range(case["reps"]):
                set_threads(t)
                if case.get("msg"):
                    x = aloud(G, go)
                    st.tag("with messages shown")
                else:
                    x = go()
                st.units += 1
                if GS.omp_get_max_threads() != t:
                    fail("%s changes the number of threads from %d to %d" % (what, t, GS.omp_get_max_threads()))
                if num:
                    if abs(x - ref) > 1e-9 * max(1.0, abs(ref)):
                        fail("%s: %r with %d threads, %r with one" % (what, x, t, ref))
                    continue
                n = x.len()
                if n != ln or x != ref or not (x <= ref):
                    d = [list(g) for _, g in zip(range(3), (x ^ ref))]
                    fail("%s%s: %d members with %d threads, %d with one; differing members include %r" % (
                        what, " within a collection" if kw else "", n, t, ln, d))
                if dump is not None and x.dumps() != dump:
                    fail("%s: saves differently with %d threads" % (what, t))
                if list(zip(range(5), x)) != some:
                    fail("%s: iteration differs with %d threads" % (what, t))
        if not num and not isinstance(ref, graphillion.VertexSetSet):
            prev = ref
        if ln >= 200 and L.m >= 12 and procs >= 2 and case["T"]:
            st.nontrivial = True
        if kw:
            st.tag("within a collection")
            if ln:
                st.tag("within a collection, some found")
