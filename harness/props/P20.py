"""A search started on (or given) a collection selects from that collection."""
import random

import numpy as np

from core import fail
from difamilies import DFAM
from families import FAM, METHOD
from graphs import DiLabelled, DiOracle, Labelled, Oracle, check_family, gen_digraph, gen_graph

ENTROPY = 420
RULE = ("some restricted search of the case selects at least one member and rejects at least one member of its search "
        "space; distinct by graph, order, search space and searches")
BUDGET = {"quick": 9000, "thorough": 150000}


def gen_space(src, g, fam):
    m = len(g["edges"])
    k = src.below(8)
    if k == 0:
        return ["list", sorted({src.bits(m) for _ in range(src.int(0, 6))})]
    if k <= 3:
        return ["mix", src.bits(32), src.int(1, 12), src.int(0, 12)]
    if k == 4:
        return ["prob", src.bits(32), src.int(1, 9)]
    if k == 5:
        return ["all", src.below(2)]
    if k == 6:
        nm = src.choice(list(fam))
        return ["fam", nm, fam[nm][0](src, g)]
    return ["dict", src.bits(m), src.bits(m)]


def gen(src, tier):
    d = src.chance(1, 4)
    fam = DFAM if d else FAM
    if d:
        g = gen_digraph(src, tier, nmax=5, mmax=9)
    else:
        g = gen_graph(src, tier, nmax=6, mmax=9)
    qs = []
    for _ in range(src.int(2, 5)):
        nm = src.choice(list(fam))
        qs.append([nm, fam[nm][0](src, g), gen_space(src, g, fam), src.below(3), src.below(4)])
    return dict(d=d, g=g, q=qs)


def run(case, st):
    import graphillion
    d = case["d"]
    C = graphillion.DiGraphSet if d else graphillion.GraphSet
    fam = DFAM if d else FAM
    L = (DiLabelled if d else Labelled)(case["g"])
    O = (DiOracle if d else Oracle)(L.n, L.edges)
    L.set_universe(C)
    prev = None
    for nm, a, sp, route, chain in case["q"]:
        _, call, cond = fam[nm]
        c = cond(O, a)
        name = nm if d else METHOD[nm]
        # the search space, as a collection and as a boolean array
        S = np.zeros(O.N, dtype=bool)
        if prev is not None and chain == 0:
            X, S = prev
            st.tag("space chained")
        else:
            st.tag("space " + sp[0])
            if sp[0] == "list":
                S[sp[1]] = True
            elif sp[0] == "mix":
                r = random.Random(sp[1])
                yes, no = np.nonzero(c)[0].tolist(), np.nonzero(~c)[0].tolist()
                S[r.sample(yes, min(len(yes), sp[2])) + r.sample(no, min(len(no), sp[3]))] = True
            elif sp[0] == "prob":
                S = np.random.RandomState(sp[1]).random_sample(O.N) < sp[2] / 10
            elif sp[0] == "all":
                S[:] = True
            elif sp[0] == "fam":
                S = fam[sp[1]][2](O, sp[2])
            else:
                inc, exc = sp[1], sp[2] & ~sp[1]
                S = ((O.S & inc) == inc) & ((O.S & exc) == 0)
            if sp[0] == "fam":
                X = fam[sp[1]][1](getattr(C, sp[1] if d else METHOD[sp[1]]), L, sp[2])
            elif sp[0] == "all" and sp[1]:
                X = ~C([])
            elif sp[0] == "all":
                X = C({})
            elif sp[0] == "dict":
                X = C({"include": L.graph(inc), "exclude": L.graph(exc)})
            else:
                X = C([L.graph(int(x)) for x in np.nonzero(S)[0]])
        before = X.copy()
        if route == 0:
            r = call(getattr(X, name), L, a)
        elif route == 1:
            r = call(getattr(C, name), L, a, graphset=X)
        else:
            r = call(getattr(X.copy(), name), L, a)
        what = "%s %s %s of a search space of %d (%s)" % ("digraph" if d else "graph", nm, a, int(S.sum()), sp)
        if type(r) is not C:
            fail("%s returns a %s" % (what, type(r)))
        check_family(L, r, c & S, what, st, fail)
        if X != before or X.len() != int(S.sum()):
            fail(what + " changed its search space")
        st.tag(nm)
        k, s = int((c & S).sum()), int(S.sum())
        if 0 < k < s:
            st.nontrivial = True
            st.tag("selective")
        prev = (r, c & S)
