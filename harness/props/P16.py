from core import fail
from difamilies import DFAM
from graphs import DiLabelled, DiOracle, check_family, gen_digraph
from props import _big

ENTROPY = 260
RULE = ("at least one query of the case has an answer that is neither empty nor all subsets of the universe; "
        "cases are distinct by digraph, labels, arc order and arguments")
BUDGET = {"quick": 9000, "thorough": 150000}
NAMES = list(DFAM)


def gen(src, tier):
    big = src.chance(1, 6)
    g = gen_digraph(src, tier, nmax=7 if big else 5, mmax=12 if big else 9)
    qs = []
    for _ in range(src.int(3, 6)):
        nm = src.choice(NAMES)
        qs.append([nm, DFAM[nm][0](src, g)])
    return dict(g=g, q=qs)


def run(case, st):
    from graphillion import DiGraphSet
    L = DiLabelled(case["g"])
    O = DiOracle(L.n, L.edges)
    L.set_universe(DiGraphSet)
    for nm, a in case["q"]:
        _, call, cond = DFAM[nm]
        gs = call(getattr(DiGraphSet, nm), L, a)
        c = cond(O, a)
        check_family(L, gs, c, "DiGraphSet.%s %s" % (nm, a), st, fail)
        st.tag(nm)
        k = int(c.sum())
        if 0 < k < O.N:
            st.nontrivial = True
            st.tag("selective")

_big.extend(globals(), di=NAMES)
