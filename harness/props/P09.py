"""An answer after any history equals the answer of a fresh process.

Two kinds of histories: sequences of universes, queries, failed requests and
other uses of the library (`eps`); and operations on families while the node
table is short of memory, so that nodes are reclaimed and reused (`gc`)."""
import io
import itertools
import os
import random
import resource
import tempfile

from core import Violation, fail
from iso import ChildError, in_child
from props import P08
from props.P08 import Pres, answer

ENTROPY = 3200
RULE = ("eps: a final answer with two or more members was compared after at least one earlier universe; gc: nodes were "
        "reclaimed at least once before a comparison; distinct by history")
BUDGET = {"quick": 4800, "thorough": 60000}
NOISE = ["rand", "hold", "thr", "conv", "err", "setset", "vss", "dump", "again", "sub", "mut", "cls"]
OPS = ["minimal", "maximal", "non_subsets", "non_supersets", "subsets", "supersets", "hitting", "join", "meet",
       "remove_some_element", "add_some_element", "remove_add_some_elements", "complement", "union", "intersection",
       "difference", "symmetric_difference", "smaller", "larger", "set_size", "including", "excluding", "len",
       "random", "iter", "cost", "prob", "quotient", "remainder", "flip"]


def gen(src, tier):
    if src.chance(1, 14):
        n = src.int(6, 12)
        steps = []
        few = src.sample(OPS, src.int(1, 4)) if src.chance(2, 3) else OPS
        for _ in range(src.int(4, 14)):
            if src.chance(1, 3):
                steps.append(["junk", src.bits(32), src.int(1, 3), 1])
            else:
                steps.append([src.choice(few), src.bits(32), src.int(0, n), src.choice([1, 4, 15, 50])])
        case = dict(k="gc", n=n, seed=src.bits(32), slack=src.int(1, 3), s=steps)
        if src.chance(1, 6):
            # more handles of a collection than a node's own reference counter holds
            case["r"] = [[j, [[src.int(65500, 65560) if src.chance(1, 2) else src.int(65530, 70000), src.int(1, 40)]
                              for _ in range(src.int(1, 2))]] for j in range(src.int(1, 4))]
            case["s"] = [["junk", src.bits(32), 3, 3]] + steps
        return case
    eps = []
    for i in range(src.int(2, 4 if tier == "quick" else 6)):
        if eps and src.chance(1, 6):
            eps.append(dict(eps[src.below(len(eps))]))      # back to an earlier universe
            continue
        c = P08.gen(src, tier)
        eps.append(dict(d=c["d"], g=c["g"], p=src.choice(c["p"]), q=c["q"],
                        z=[[src.choice(NOISE), src.bits(32)] for _ in range(src.below(4))]))
    return dict(k="eps", e=eps)


# ------------------------------------------------------------------ eps

def cls(d):
    import graphillion
    return graphillion.DiGraphSet if d else graphillion.GraphSet


def fresh(ep, q):
    P = Pres(ep["g"], ep["p"], ep["d"])
    P.register(cls(ep["d"]))
    return answer(P, cls(ep["d"]), q[0], q[1], q[2], None)


def noise(kind, bits, ep, P, C, held):
    import graphillion as g
    r = random.Random(bits)
    fam = C([P.graph(r.getrandbits(P.m)) for _ in range(r.randint(1, 8))])
    if kind == "rand":
        it = fam.rand_iter()
        next(it)
        held.append(it)
    elif kind == "hold":
        it = iter(fam)
        next(it)
        held += [it, fam, fam.maximal()]
    elif kind == "thr":
        g.GraphSet.omp_set_num_threads(r.randint(1, 4))
    elif kind == "conv":
        old = dict(C.converters)
        C.converters["to_graph"] = lambda x: frozenset(x)
        C.converters["to_edges"] = lambda x: list(x)
        try:
            list(fam)
            frozenset() in fam
        finally:
            C.converters.update(old)
    elif kind == "err":
        bad = [lambda: C([[("no", "such")]]), lambda: fam.including(("no", "such")), lambda: C(5),
               lambda: C.set_universe([]), lambda: fam.remove(("no", "such")), lambda: C({"bad": []}),
               lambda: C.loads("x"), lambda: fam.larger("x"), lambda: fam.cost_le({}, 3),
               lambda: fam.symmetric_difference(3), lambda: C([]).pop(), lambda: iter(5)]
        for i in range(2):
            f = bad[r.randrange(len(bad))]
            try:
                if f is not bad[6]:      # malformed dumps are P22's subject
                    f()
            except Exception:
                pass
        P.register(C)
    elif kind == "setset":
        n = r.randint(1, 60)
        old = g.setset.universe()
        g.setset.set_universe(list(range(1, n + 1)))
        ss = g.setset([[x for x in range(1, n + 1) if r.random() < .4] for _ in range(5)])
        ss = ss.minimal() | ss.maximal() | ss.set_size(n // 2)
        if n < 18:
            ss = ~ss
            ss.blocking() if hasattr(ss, "blocking") else None
        held.append(ss)
    elif kind == "vss":
        if not P.directed:
            vs = g.VertexSetSet([[v for v in P.lab if r.random() < .5] for _ in range(4)])
            held.append(~vs)
    elif kind == "dump":
        f = io.StringIO() if False else None
        held.append(C.loads(fam.dumps()))
    elif kind == "again":
        P.register(C)
    elif kind == "sub":
        x = fam & C([P.graph(r.getrandbits(P.m))])
        x |= fam
        x.complement()
        held.append(x)
    elif kind == "mut":
        x = fam.copy()
        x.add(P.E[r.randrange(P.m)])
        x.flip(P.E[r.randrange(P.m)])
        x.discard(P.graph(r.getrandbits(P.m)))
        while x and r.random() < .7:
            x.pop()
        x.clear()
    elif kind == "cls":
        held.append(fam.probability({e: .25 for e in P.E}))
        held.append(len(list(itertools.islice(fam.min_iter({e: i - 2 for i, e in enumerate(P.E)}), 3))))


def run_eps(case, st):
    eps = case["e"]
    held = []
    last = eps[-1]
    want = []
    for q in last["q"]:
        want.append(in_child(fresh, last, q))
    for j, ep in enumerate(eps):
        C = cls(ep["d"])
        P = Pres(ep["g"], ep["p"], ep["d"])
        P.register(C)
        if j < len(eps) - 1:
            for q in ep["q"]:
                answer(P, C, q[0], q[1], q[2], None)
                st.units += 1
        for kind, bits in ep["z"]:
            noise(kind, bits, ep, P, C, held)
            st.tag("history " + kind)
    for rnd in range(2):
        for q, w in zip(last["q"], want):
            r = answer(P, C, q[0], q[1], q[2], None)
            st.units += 1
            st.tag(q[0])
            if isinstance(r, (frozenset, tuple)) and len(r) >= 2:
                st.nontrivial = True
            if r != w:
                d = ""
                if isinstance(r, frozenset) and isinstance(w, frozenset):
                    d = "; too much: %s; missing: %s" % (list(r - w)[:3], list(w - r)[:3])
                fail("%s after %d earlier universes%s answers %s, a fresh process answers %s%s" % (
                    q, len(eps) - 1, " (second time)" if rnd else "",
                    "%d members" % len(r) if isinstance(r, frozenset) else r,
                    "%d members" % len(w) if isinstance(w, frozenset) else w, d))


# ------------------------------------------------------------------ gc

def vsz():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def model(op, F, G, i, U):
    """The defining formulas, on frozensets of frozensets."""
    if op == "minimal":
        return {a for a in F if not any(b < a for b in F)}
    if op == "maximal":
        return {a for a in F if not any(b > a for b in F)}
    if op == "non_subsets":
        return {a for a in F if not any(a <= b for b in G)}
    if op == "non_supersets":
        return {a for a in F if not any(a >= b for b in G)}
    if op == "subsets":
        return {a for a in F if any(a <= b for b in G)}
    if op == "supersets":
        return {a for a in F if any(a >= b for b in G)}
    if op == "join":
        return {a | b for a in F for b in G}
    if op == "meet":
        return {a & b for a in F for b in G}
    if op == "remove_some_element":
        return {a - {x} for a in F for x in a}
    if op == "add_some_element":
        return {a | {x} for a in F for x in U - a}
    if op == "remove_add_some_elements":
        return {(a - {x}) | {y} for a in F for x in a for y in U - a}
    if op == "complement":
        return {U - a for a in F}
    if op == "union":
        return F | G
    if op == "intersection":
        return F & G
    if op == "difference":
        return F - G
    if op == "symmetric_difference":
        return F ^ G
    if op == "smaller":
        return {a for a in F if len(a) < i}
    if op == "larger":
        return {a for a in F if len(a) > i}
    if op == "set_size":
        return {a for a in F if len(a) == i}
    if op == "quotient":
        return model("including", F, None, i, U) and {a - {i} for a in F if i in a}
    if op == "remainder":
        return {a for a in F if i not in a}
    if op == "including":
        return {a for a in F if i in a}
    if op == "excluding":
        return {a for a in F if i not in a}
    if op == "flip":
        return {a ^ {i} for a in F}
    raise ValueError(op)


def run_gc(case, log):
    """-> (violation message or None, steps done, comparisons)"""
    from graphillion import setset
    os.dup2(log, 2)
    n = case["n"]
    N = 40
    setset.set_universe(list(range(1, N + 1)))
    U = frozenset(range(1, N + 1))
    R = random.Random(case["seed"])

    def small(k=None):
        return {frozenset(x for x in range(1, n + 1) if R.random() < .45) for _ in range(k or R.randint(1, 14))}

    def junk(times=1):
        for _ in range(times):
            a = setset([{x for x in range(1, N + 1) if R.random() < .3} for _ in range(50)])
            b = setset([{x for x in range(1, N + 1) if R.random() < .3} for _ in range(50)])
            a.join(b)

    def lit(F):
        return setset([set(a) for a in F])

    def val(ss):
        return {frozenset(x) for x in ss}

    kept = []
    junk(1)
    for _ in range(4):
        F = small()
        ss = lit(F)
        kept.append((ss, F))
    # warm everything up before memory becomes short
    for ss, F in kept:
        for op in ("minimal", "maximal", "non_subsets", "non_supersets"):
            getattr(ss, op)(*([kept[0][0]] if op[:3] == "non" else []))
        next(ss.rand_iter())
    crowd = []
    for j, waves in case.get("r", []):
        F = {x ^ {n + 1 + j} for x in small()}     # new nodes that nothing else holds
        crowd.append((F, [lit(F)], waves))
    for w in range(2):
        for part in range(2):
            for F, hs, waves in crowd:
                if w < len(waves):
                    peak, left = waves[w]
                    if part == 0:
                        hs += [hs[0].copy() for _ in range(peak - len(hs))]
                    else:
                        R.shuffle(hs)
                        del hs[left:]
    kept += [(h, F) for F, hs, waves in crowd for h in hs[:3]]
    del crowd
    # room for everything but a larger node table: small blocks, kept apart
    pins = [bytearray(60000) for _ in range(400)]
    tup = [(None, k) for k in range(200000)]
    pins = pins[::2]
    tup = tup[::500]
    lim = vsz() + (case["slack"] << 20)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    done = cmpd = 0
    for op, seed, i in [(op, seed + j, i) for op, seed, i, rep in case["s"] for j in range(rep)]:
        R.seed(seed)
        if op == "junk":
            junk(i)
            done += 1
            continue
        F = small()
        if R.random() < .5:
            ss = lit(F)
        else:
            ss, F = kept[R.randrange(len(kept))]
        G = small(R.randint(1, 4))
        if R.random() < .3:
            F2 = model("join", F, G, 0, U)
            ss, F = ss.join(lit(G)), F2
        v = R.randint(1, n)
        what = "%s of %s" % (op, sorted(map(sorted, F)))
        if op == "len":
            got, want = len(ss), len(F)
        elif op == "complement":
            inv = ~ss
            if inv & ss or inv.len() + len(F) != 1 << N:
                got = "something else"
            else:
                got = val(~inv)
            want = F
        elif op == "iter":
            got, want = val(ss), F
        elif op == "random":
            got = {frozenset(x) for x in ss.rand_iter()}
            want = F
        elif op == "cost":
            w = {x: R.randint(-4, 6) for x in U}
            got = val(ss.cost_le(w, i))
            want = {a for a in F if sum(w[x] for x in a) <= i}
        elif op == "prob":
            from fractions import Fraction
            p = {x: R.randint(0, 8) / 8 for x in U}
            got = round(ss.probability(p), 9)
            t = Fraction(0)
            for a in F:
                z = Fraction(1)
                for x in U:
                    z *= Fraction(p[x]) if x in a else 1 - Fraction(p[x])
                t += z
            want = round(float(t), 9)
        elif op == "hitting":
            # judged by duality: H hits all of F and every hitting set on 1..n is there
            h = ss.hitting()
            got = {frozenset(x) for x in h.minimal()}
            cand = [frozenset(c) for k in range(n + 1) for c in itertools.combinations(range(1, n + 1), k)] \
                if n <= 8 else None
            if cand is None or any(max(a or [0]) > n for a in F):
                got = want = None
            else:
                hs = {c for c in cand if all(c & a for a in F)}
                want = {a for a in hs if not any(b < a for b in hs)}
        elif op in ("smaller", "larger", "set_size"):
            got, want = val(getattr(ss, op)(i)), model(op, F, None, i, U)
        elif op == "including":
            got, want = val(ss.supersets(v)), model(op, F, None, v, U)
        elif op == "excluding":
            got, want = val(ss.non_supersets(v)), model(op, F, None, v, U)
        elif op in ("quotient", "remainder"):
            got, want = val(getattr(ss, op)(lit([{v}]))), model(op, F, None, v, U)
        elif op == "flip":
            c = ss.copy()
            c.flip(v)
            got, want = val(c), model(op, F, None, v, U)
        elif op in ("minimal", "maximal", "remove_some_element", "add_some_element", "remove_add_some_elements",
                    ):
            if op.endswith("s") and len(F) > 8 or op == "add_some_element" and len(F) > 30:
                got = want = None
            else:
                got, want = val(getattr(ss, op)()), model(op, F, None, None, U)
        else:
            got, want = val(getattr(ss, op)(lit(G))), model(op, F, G, None, U)
            what += " with %s" % sorted(map(sorted, G))
        done += 1
        cmpd += 1
        if got != want:
            return ("after nodes were reclaimed under a memory limit: %s answers %s instead of %s" % (
                what[:600], str(got)[:400], str(want)[:400]), done, cmpd)
        if R.random() < .3:
            kept[R.randrange(len(kept))] = (ss, F)
        for ss, F in kept:
            if val(ss) != F or ss.len() != len(F):
                return ("after nodes were reclaimed under a memory limit: a collection held all the time changed from "
                        "%s to %s" % (sorted(map(sorted, F)), sorted(map(sorted, val(ss)))), done, cmpd)
    return (None, done, cmpd)


def run(case, st):
    if case["k"] == "eps":
        run_eps(case, st)
        return
    try:
        with tempfile.TemporaryFile() as log:
            try:
                msg, done, cmpd = in_child(run_gc, case, log.fileno())
            except ChildError as e:
                log.seek(0)
                said = log.read().decode(errors="replace")[-500:]
                # the library's own check of its node table: a collection held all the time is no longer there
                if any(w in said for w in ("Invalid bddp", "under flow", "inconsistensy", "Fail to find", "applying ")):
                    raise Violation("after nodes were reclaimed under a memory limit the process ended: " + said)
                raise
    except ChildError as e:
        # too little memory to go on is not an answer; nothing else is excused
        if "MemoryError" in str(e) or "bad_alloc" in str(e) or "ended with status 256" in str(e) \
                or "ended with status 6 " in str(e):
            st.tag("gc out of memory")
            return
        raise
    st.units += cmpd
    st.tag("gc")
    if "r" in case:
        st.tag("gc after 65 thousand handles")
    if any(s[0] == "junk" for s in case["s"]) and cmpd:
        st.nontrivial = True
    if msg:
        raise Violation(msg)
