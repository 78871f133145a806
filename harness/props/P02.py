"""Derived operations against their definitions."""
from classes import (Cls, diff, gen_member, gen_members, gen_universe, m_hitting, m_join, m_maximal, m_meet, m_minimal,
                     m_quotient, m_remainder, m_subsets, m_supersets, popcount, universe_size)
from core import fail

ENTROPY = 500
RULE = ("some operation of the case has an operand family with at least three members and a result that is neither "
        "empty nor equal to its operand; distinct by class, universe, order, families and operations")
BUDGET = {"quick": 12000, "thorough": 300000}
BIN = ["quotient", "remainder", "join", "meet", "subsets", "supersets", "non_subsets", "non_supersets",
       "quotient", "remainder", "including", "excluding", "included", "join", "meet", "non_supersets", "non_subsets",
       "supersets", "subsets"]
UN = ["minimal", "maximal", "hitting", "complement", "invert", "minimal", "maximal", "hitting"]
SIZE = ["smaller", "larger", "set_size", "len"]
ELEM = ["including_elem", "excluding_elem", "including_vertex", "excluding_vertex", "including_one", "excluding_one",
        "included_one"]
SLOTS = 3


def gen(src, tier):
    u = gen_universe(src, nmax=7)
    n = universe_size(u)
    fams = []
    for i in range(SLOTS):
        hi = src.choice([3, 6, 6, 12])
        fam = gen_members(src, u, 0, hi)
        if i and src.chance(1, 3):
            # related to the first family: products and parts of its members
            other = fams[0]
            fam = sorted(set(fam) | {x & gen_member(src, u) for x in other[:4]})
        if n <= 8 and src.chance(1, 12):
            # a family chosen from all subsets, as large as that gives
            t = src.bits(1 << n)
            if src.chance(1, 3):
                t |= src.bits(1 << n)
            fam = [x for x in range(1 << n) if t >> x & 1]
        fams.append(fam)
    if src.chance(1, 4):
        # make the first family a product, so that quotients are not empty
        k = src.int(0, n)
        low = (1 << k) - 1
        fams[0] = sorted({(a & low) | (b & ~low) for a in fams[1][:5] for b in fams[2][:5]} | set(fams[0][:2]))
        fams[1] = sorted({a & low for a in fams[1][:3]})
    if u["cls"] == "EdgeVertexSetSet":
        from classes import close_ev
        fams = [sorted({close_ev(u, x) for x in f}) for f in fams]
    ops = []
    for _ in range(src.int(2, 8)):
        k = src.below(8)
        if k < 4:
            ops.append([src.choice(BIN), src.below(SLOTS), src.below(SLOTS), src.below(3)])
        elif k < 6:
            ops.append([src.choice(UN), src.below(SLOTS), 0, 0])
        elif k == 6:
            a = src.below(SLOTS)
            if fams[a] and src.chance(2, 3):        # next to the size of a member
                size = max(0, popcount(src.choice(fams[a])) + src.int(-1, 1))
            else:
                size = src.int(0, n + 1)
            ops.append([src.choice(SIZE), a, size, 0])
        else:
            ops.append([src.choice(ELEM), src.below(SLOTS), src.below(n), src.below(3), gen_member(src, u)])
    return dict(u=u, f=fams, ops=ops, keep=src.below(2))


def hitting_large(K, s, A, what):
    """The number by inclusion-exclusion over the members, and what is inside by samples."""
    unions = {0: 1}
    for x in A:
        new = dict(unions)
        for y, c in unions.items():
            new[x | y] = new.get(x | y, 0) - c
        unions = new
    count = sum(c << (K.n - popcount(y)) for y, c in unions.items())
    r = s.hitting()
    if r.len() != count:
        fail("%s: %d members, %d counted" % (what, r.len(), count))
    probe = [0, K.full] + sorted(A)
    for x in sorted(A):
        probe += [K.full ^ x, K.full ^ (x & -x), x & -x, (K.full ^ x) | (x & -x)]
    for x in probe:
        want = all(x & y for y in A)
        if (K.member(x) in r) != want:
            fail("%s: %r is %sa member" % (what, K.show([x])[0], "" if not want else "not "))


def run(case, st):
    K = Cls(case["u"])
    C = K.C
    S = [K.make(f) for f in case["f"]]
    M = [set(f) for f in case["f"]]
    for i, op in enumerate(case["ops"] + case["ops"][:1] if case["keep"] else case["ops"]):
        o, a = op[0], op[1]
        s, A = S[a], M[a]
        what = "%s.%s (op %d of %r)" % (K.name, o, i, [K.show(x) for x in M])
        r = None
        if o in BIN:
            b = op[2]
            t, B = S[b], M[b]
            if len(A) * len(B) > 4000:
                continue
            if o in ("quotient", "remainder"):
                if not K.has("quotient"):
                    continue
                want = m_quotient(A, B) if o == "quotient" else m_remainder(A, B)
                how = op[3]
                try:
                    if how == 0:
                        r = getattr(s, o)(t)
                    elif how == 1:
                        r = (s / t if op[2] or K.name == "setset" else s // t) if o == "quotient" else s % t
                    else:
                        r = s.copy()
                        if op[2]:
                            getattr(r, o + "_update")(t)
                        else:
                            q = r
                            if o == "quotient":
                                r /= t
                            else:
                                r %= t
                            if q is not r:
                                fail(what + ": in-place operator made another collection")
                except ZeroDivisionError:
                    if B:
                        fail(what + ": ZeroDivisionError although the divisor is not empty")
                    r, want = None, None
                if want is None:        # nothing is documented for an empty divisor but the definition
                    r = None
            elif o in ("including", "excluding", "included"):
                if not K.has("incl"):
                    continue
                want = (m_supersets(A, B) if o == "including" else A - m_supersets(A, B) if o == "excluding"
                        else m_subsets(A, B))
                r = getattr(s, o)(t)
            else:
                want = {"join": lambda: m_join(A, B), "meet": lambda: m_meet(A, B),
                        "subsets": lambda: m_subsets(A, B), "supersets": lambda: m_supersets(A, B),
                        "non_subsets": lambda: A - m_subsets(A, B),
                        "non_supersets": lambda: A - m_supersets(A, B)}[o]()
                r = K.meth(s, o)(t)
        elif o in UN:
            if o in ("minimal", "maximal"):
                want = m_minimal(A) if o == "minimal" else m_maximal(A)
                r = getattr(s, o)()
            elif K.name == "EdgeVertexSetSet":
                continue
            elif o == "hitting":
                if K.n > 11:
                    if len(A) <= 10 and (K.n < 26 or len(A) < 6):
                        hitting_large(K, s, A, what)
                        st.units += 1
                        st.tag("hitting, large universe")
                    continue
                want = m_hitting(A, K.n)
                r = s.hitting()
            elif o == "complement":
                want = {x ^ K.full for x in A}
                if K.name == "setset":
                    r = s.copy()
                    r.flip()
                else:
                    r = s.complement()
            else:
                if K.n > 11:
                    # compare through the size only
                    st.units += 1
                    r = ~s
                    if r.len() != (1 << K.n) - len(A):
                        fail(what + ": %d members" % r.len())
                    for x in sorted(A)[:3] + [0, K.full, 1, K.full >> 1]:
                        if (K.member(x) in r) == (x in A):
                            fail("%s: %r" % (what, K.show([x])[0]))
                    if not r.isdisjoint(s) or ~r != s:
                        fail(what + ": not the complement")
                    continue
                want = set(range(1 << K.n)) - A
                r = ~s
        elif o in SIZE:
            k = op[2]
            if o == "len":
                if K.name == "setset":
                    r = s.len(k)
                else:
                    r = s.len(k)
                want = {x for x in A if popcount(x) == k}
            else:
                want = {x for x in A if (popcount(x) < k if o == "smaller" else popcount(x) > k if o == "larger"
                                         else popcount(x) == k)}
                r = K.meth(s, o)(k)
        else:
            e, b = K.elem(op[2], op[3]), 1 << op[2]
            inc = o.startswith("incl")
            if o.endswith("_elem"):
                if K.name == "setset":
                    r = s.supersets(e) if inc else s.non_supersets(e)
                else:
                    r = s.including(e) if inc else s.excluding(e)
                want = {x for x in A if bool(x & b) == inc}
            elif o.endswith("_vertex"):
                if K.name not in ("GraphSet", "DiGraphSet"):
                    continue
                v = op[2] % len(K.lab)
                b = sum(1 << j for j, ed in enumerate(case["u"]["g"]["edges"]) if v in ed)
                r = s.including(K.lab[v]) if inc else s.excluding(K.lab[v])
                want = {x for x in A if bool(x & b) == inc}
            else:
                if not K.has("incl"):
                    continue
                g = op[4]
                obj = K.member(g, op[3] * 4)
                if o == "included_one":
                    r = s.included(obj)
                    want = {x for x in A if x & g == x}
                else:
                    r = s.including(obj) if inc else s.excluding(obj)
                    want = {x for x in A if (x & g == g) == inc}
        if r is None:
            continue
        st.tag(o)
        st.units += 1
        if not isinstance(r, C):
            fail("%s returned a %s" % (what, type(r)))
        got = K.read(r)
        if got != want or r.len() != len(want):
            fail("%s: %s" % (what, diff(K, got, want)))
        for j in range(SLOTS):
            if K.read(S[j]) != M[j]:
                fail("%s changed operand %d: %s" % (what, j, diff(K, K.read(S[j]), M[j])))
        if len(A) > 2 and want and want != A:
            st.nontrivial = True
    st.tag("class " + K.name)
