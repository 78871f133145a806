"""repr() and str() of collections: their members, smaller ones first, in at
most 80 characters."""
import re

from classes import Cls, gen_members, gen_universe, universe_size
from core import fail

ENTROPY = 500
RULE = ("the text of a collection with two or more members was read back; distinct by class, labels, members and history")
BUDGET = {"quick": 12000, "thorough": 250000}


def gen(src, tier):
    u = gen_universe(src, nmax=6)
    n = universe_size(u)
    k = src.choice([1, 2, 3, 4, 8, 20])
    if n > 12:
        f = []
        for _ in range(src.int(1, k)):
            f.append(gen_members(src, u, 1, 2)[0])
    else:
        f = gen_members(src, u, 0, k)
    if src.chance(1, 3):
        # few small members: the text fits in the line
        f = sorted(f, key=lambda x: bin(x).count("1"))[:src.int(1, 4)]
    return dict(u=u, f=sorted(set(f)), how=src.below(5), w=src.chance(1, 4), other=src.bits(n))


def sort(K, l):
    try:
        return sorted(l)
    except TypeError:
        return l            # elements that cannot be compared come in any order


def text(K, x):
    """The ways to write down one member."""
    l = [K.elems[i] for i in range(K.n) if x >> i & 1]
    try:
        if K.name == "EdgeVertexSetSet":
            E = [K.elems[i] for i in range(K.m) if x >> i & 1]
            V = [K.elems[i] for i in range(K.m, K.n) if x >> i & 1]
            b = str(sorted(E) + sorted(V))[1:-1]
        else:
            b = str(sorted(l))[1:-1]
    except TypeError:
        return None, len(str(l))
    return b, len(b) + 2


def run(case, st):
    import graphillion as g
    u = case["u"]
    K = Cls(u, register=not case["w"])
    if case["w"]:
        # registered weights are not part of the text
        if K.name in ("GraphSet", "EdgeVertexSetSet", "DiGraphSet"):
            gr = u["g"]
            src = None if gr["src"] < 0 else K.lab[gr["src"]]
            C = g.DiGraphSet if K.name == "DiGraphSet" else g.GraphSet
            C.set_universe([e + (i - 2.5,) for i, e in enumerate(K.elems[:K.m])], traversal=gr["trav"], source=src)
        elif K.name == "VertexSetSet":
            g.Universe.set_vertex_universe([(e, i - 3) for i, e in enumerate(K.elems)])
        else:
            K.register()
    F = set(case["f"])
    how = case["how"]
    if how == 0:
        c = K.make(sorted(F))
    elif how == 1:
        c = K.make([])
        for x in sorted(F, reverse=True):
            c.add(K.member(x, 1))
    elif how == 2:
        c = K.make(sorted(F)[::2]) | K.make(sorted(F)[1::2])
    elif how == 3:
        c = K.make(sorted(F | {0})).copy()
        if 0 not in F:
            c.discard(K.member(0, 1))
    else:
        c = K.C.loads(K.make(sorted(F)).dumps())
    before = K.read(c)
    r = repr(c)
    st.units += 1
    if str(c) != r:
        fail("%s: str() gives %r, repr() %r" % (K.name, str(c), r))
    if repr(c) != r:
        fail("%s: repr() gives %r, then %r" % (K.name, r, repr(c)))
    if K.read(c) != before or before != F:
        fail("%s: printing changes the collection" % K.name)
    inner = ("set([", "])") if K.name == "setset" else ("[", "]")
    head = K.name + "(["
    T = {x: text(K, x) for x in F}
    size = len(head) + sum(T[x][1] - 2 + len(inner[0]) + len(inner[1]) for x in F) + 2 * max(0, len(F) - 1) + 2
    if len(r) > 80:
        fail("%s: %d characters: %r" % (K.name, len(r), r))
    if not r.startswith(head):
        fail("%s: %r" % (K.name, r))
    cut = r.endswith(" ...") and size > 80
    if size <= 80 and len(r) != size:
        fail("%s: %d characters in %r, %d expected for the members %r" % (K.name, len(r), r, size, K.show(F)))
    if size > 80 and (not cut or len(r) != 80):
        fail("%s: the members take %d characters, shown as %r" % (K.name, size, r))
    st.tag("cut" if cut else "complete")
    if any(b is None for b, _ in T.values()):
        st.tag("incomparable elements")
        if not cut and any(str(e) not in r for x in F for i, e in enumerate(K.elems) if x >> i & 1):
            fail("%s: %r does not show %r" % (K.name, r, K.show(F)))
        if len(F) >= 2:
            st.nontrivial = True
        return
    body = r[len(head):-4] if cut else r[len(head):-2]
    if not cut and not r.endswith("])"):
        fail("%s: %r" % (K.name, r))
    # read the members back from the left; the last one may be incomplete
    by = {}
    for x in F:
        by.setdefault(inner[0] + T[x][0] + inner[1], []).append(x)
    if len(by) != len(F):
        return              # different elements with the same text
    shown, rest = [], set(by)
    p = 0
    while rest:
        # no text is a prefix of another one unless labels contain brackets: take the longest that matches
        m = [t for t in rest if body.startswith(t, p)]
        if not m:
            break
        t = max(m, key=len)
        shown.append(by[t][0])
        rest.discard(t)
        p += len(t)
        if body.startswith(", ", p):
            p += 2
        else:
            break
    if not cut and (rest or p != len(body)):
        fail("%s: %r is not %r" % (K.name, r, K.show(F)))
    left = body[p:]
    # positions in the registered order decide among members of the same size
    if K.name in ("setset", "VertexSetSet"):
        order = K.elems
    elif K.name == "EdgeVertexSetSet":
        order = g.Universe.edge_vertex_universe()
    else:
        order = [e[:2] for e in K.C.universe()]
    pos = {K.index[e]: i + 1 for i, e in enumerate(order)}

    def key(x):
        return (bin(x).count("1"), sum(pos[i] for i in range(K.n) if x >> i & 1))
    ks = [key(x) for x in shown]
    if ks != sorted(ks):
        fail("%s: members are shown out of order: %r" % (K.name, r))
    others = [by[t][0] for t in rest]
    if shown and others and min(map(key, others)) < ks[-1]:
        fail("%s: %r leaves out %r, which come before the last one shown" % (K.name, r, K.show(
            [x for x in others if key(x) < ks[-1]])))
    if cut and left:
        m = [t for t in rest if t.startswith(left) or (t + ", ").startswith(left)]
        if not m and left not in (", "[:len(left)],):
            fail("%s: %r continues with %r, which is no member" % (K.name, r, left))
        if others and m and min(key(by[t][0]) for t in m) > min(map(key, others)):
            fail("%s: %r continues with a larger member than the next one" % (K.name, r))
    if len(F) >= 2:
        st.nontrivial = True
        if len(shown) >= 2:
            st.tag("order of %s" % ("members of one size" if len({k[0] for k in ks}) < len(ks) else "sizes"))
