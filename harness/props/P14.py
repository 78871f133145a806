import numpy as np

from core import fail
from graphs import Labelled, Oracle, check_family, gen_graph
from props import _big

ENTROPY = 260
RULE = ("at least one query of the case has an answer that is neither empty nor every partition of the graph "
        "into connected blocks; cases are distinct by graph, labels, order, weights and bounds")
BUDGET = {"quick": 6000, "thorough": 100000}


def gen(src, tier):
    g = gen_graph(src, tier)
    n = g["n"]
    qs = []
    for _ in range(src.int(2, 5)):
        if src.chance(1, 3):
            a = {}
            if src.chance(3, 4):
                a["lb"] = src.int(1, n)
            if src.chance(3, 4):
                a["ub"] = a.get("lb", 1) + src.int(0, 3)
            qs.append(["p", a])
            continue
        a = {}
        scale = src.weighted([(6, 1), (1, 100), (1, 40000), (1, 1000000)])
        w = None
        if src.chance(4, 5):
            k = src.weighted([(2, 3), (2, 6), (1, 1), (1, 20)])
            w = [[v, scale * src.int(0 if src.chance(1, 3) else 1, k) + (src.below(2) if scale > 1 else 0)]
                 for v in (range(n) if src.chance(3, 4) else src.subset(range(n)))]
            a["w"] = w
        ws = [1] * n
        for v, x in (w or []):
            ws[v] = x
        tot = sum(ws)
        if src.chance(1, 2):
            a["lo"] = src.weighted([(2, tot // max(2, n)), (1, min(ws)), (1, max(ws)), (1, tot // 3)]) + src.int(0, 1)
        if src.chance(1, 2):
            a["hi"] = src.weighted([(2, tot // 2), (2, max(ws)), (1, (2 * tot) // 3)]) + src.int(0, 2)
            a["hi"] = max(a["hi"], a.get("lo", 0))
        if src.chance(2, 3):
            a["r"] = src.choice([1.0, 1.5, 2.0, 3.0, 1.25, 4.5, 8.0, 2, 1])
        if src.chance(1, 2):
            a["k"] = src.int(1, min(n, 5))
        qs.append(["b", a])
    return dict(g=g, q=qs)


def run(case, st):
    from graphillion import GraphSet
    L = Labelled(case["g"])
    O = Oracle(L.n, L.edges)
    L.set_universe(GraphSet)
    part = np.ones(O.N, dtype=bool)
    for i, (u, v) in enumerate(L.edges):
        part &= O.bit[i] | ~O.same(u, v)
    heads = O.lab == np.arange(L.n)
    blocks = heads.sum(axis=1)
    allp = int(part.sum())
    for kind, a in case["q"]:
        if kind == "p":
            kw = {}
            if "lb" in a:
                kw["num_comp_lb"] = a["lb"]
            if "ub" in a:
                kw["num_comp_ub"] = a["ub"]
            gs = GraphSet.partitions(**kw)
            c = part & (blocks >= a.get("lb", 1)) & (blocks <= a.get("ub", 32767))
            what = "partitions(%s)" % kw
        else:
            kw = {}
            w = np.ones(L.n, dtype=np.int64)
            if "w" in a:
                kw["weight_list"] = {L.lab[v]: x for v, x in a["w"]}
                for v, x in a["w"]:
                    w[v] = x
            for s, t in (("lo", "lower"), ("hi", "upper"), ("r", "ratio"), ("k", "num_comps")):
                if s in a:
                    kw[t] = a[s]
            gs = GraphSet.balanced_partitions(**kw)
            bw = np.zeros((O.N, L.n), dtype=np.int64)
            for v in range(L.n):
                np.add.at(bw, (np.arange(O.N), O.lab[:, v]), w[v])
            mx = np.where(heads, bw, -1).max(axis=1)
            mn = np.where(heads, bw, 1 << 40).min(axis=1)
            c = part & (mn >= a.get("lo", 0)) & (mx <= a.get("hi", 4294967295 // 4))
            if "r" in a:
                c &= mx <= mn * float(a["r"])
            if "k" in a:
                c &= blocks == a["k"]
            what = "balanced_partitions(%s)" % kw
        check_family(L, gs, c, what, st, fail)
        k = int(c.sum())
        st.tag({"p": "partitions", "b": "balanced"}[kind])
        if 0 < k < allp:
            st.nontrivial = True
            st.tag("selective")
_big.extend(globals(), ['partitions'])
