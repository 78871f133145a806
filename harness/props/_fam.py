"""Shared body of the checks that compare families with brute force."""
from core import fail
from families import FAM, METHOD
from graphs import Labelled, Oracle, check_family, gen_graph


def make(names, weights=None, queries=(3, 5), nmax=7, mmax=10):
    names = list(names)
    pool = []
    for n in names:
        pool += [n] * (weights or {}).get(n, 1)

    def gen(src, tier):
        g = gen_graph(src, tier, nmax=nmax, mmax=mmax)
        qs = []
        for _ in range(src.int(*queries)):
            nm = src.choice(pool)
            qs.append([nm, FAM[nm][0](src, g)])
        return dict(g=g, q=qs)

    def run(case, st):
        from graphillion import GraphSet
        L = Labelled(case["g"])
        O = Oracle(L.n, L.edges)
        L.set_universe(GraphSet)
        for nm, a in case["q"]:
            _, call, cond = FAM[nm]
            gs = call(getattr(GraphSet, METHOD[nm]), L, a)
            c = cond(O, a)
            k = int(c.sum())
            check_family(L, gs, c, "%s %s" % (nm, a), st, fail)
            st.tag(nm)
            if 0 < k < O.N:
                st.nontrivial = True
                st.tag("selective")
            elif k == 0:
                st.tag("empty answer")
    return gen, run
