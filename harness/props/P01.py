"""Stateful check: histories of set operations against Python sets."""
from classes import CLASSES, Cls, diff, gen_member, gen_members, gen_universe, universe_size
from core import Skip, fail

ENTROPY = 700
RULE = ("the history has at least five operations, and at some point two slots hold different collections of at "
        "least two members; distinct by class, universe, order and history")
BUDGET = {"quick": 12000, "thorough": 300000}

BIN = ["union", "intersection", "difference", "symmetric_difference"]
UPD = {"update": "union", "intersection_update": "intersection", "difference_update": "difference",
       "symmetric_difference_update": "symmetric_difference"}
OPER = {"union": "__or__", "intersection": "__and__", "difference": "__sub__", "symmetric_difference": "__xor__"}
IOPER = {"union": "__ior__", "intersection": "__iand__", "difference": "__isub__", "symmetric_difference": "__ixor__"}
OPS = (["bin"] * 4 + ["oper"] * 3 + ["upd"] * 4 + ["ioper"] * 3 + ["add"] * 3 + ["addelem"] * 2 + ["remove"] * 3 +
       ["removeelem"] * 2 + ["discard"] * 2 + ["discardelem"] * 2 + ["pop"] * 2 + ["clear", "flip", "flip", "flipall",
       "copy", "copy", "ctor", "make", "make", "compare", "compare", "contains", "contains", "containselem",
       "containsvertex", "removevertex", "discardvertex", "dict", "dict", "choice", "alias", "reread", "ctorself"])
SLOTS = 4


def gen(src, tier):
    u = gen_universe(src)
    init = [gen_members(src, u, 0, 6) for _ in range(SLOTS)]
    n = universe_size(u)
    ops = []
    for _ in range(src.int(3, 28)):
        o = src.choice(OPS)
        a, b, c = src.below(SLOTS), src.below(SLOTS), src.below(SLOTS)
        if o in ("bin", "upd", "oper", "ioper"):
            k = src.below(4) if o in ("bin", "upd") else 1
            ops.append([o, a, BIN[src.below(4)], [src.below(SLOTS) for _ in range(k)], b])
        elif o in ("add", "remove", "discard", "contains"):
            ops.append([o, a, gen_member(src, u) if src.chance(1, 2) else ["m", src.byte()], src.below(16)])
        elif o in ("addelem", "removeelem", "discardelem", "containselem", "flip", "containsvertex", "removevertex",
                   "discardvertex"):
            ops.append([o, a, src.below(n), src.below(3)])
        elif o == "dict":
            x, y = src.bits(n) & src.bits(n), src.bits(n) & src.bits(n)
            ops.append([o, a, x & ~y, y & ~x, src.below(4)])
        elif o == "make":
            ops.append([o, a, gen_members(src, u, 0, 6), src.below(64)])
        else:
            ops.append([o, a, b, c])
    return dict(u=u, init=init, style=src.below(64), ops=ops)


def check_slot(K, c, M, what, st):
    st.units += 1
    got = K.read(c)
    if got != M:
        fail("%s: %s" % (what, diff(K, got, M)))
    if c.len() != len(M) or len(c) != len(M) or bool(c) != bool(M):
        fail("%s: len() %s, __len__ %s, bool %s for %d members" % (what, c.len(), len(c), bool(c), len(M)))


def run(case, st):
    K = Cls(case["u"])
    C = K.C
    slots, M = [], []
    for i, ms in enumerate(case["init"]):
        slots.append(K.make(ms, case["style"] + i))
        M.append(set(ms))
        check_slot(K, slots[i], M[i], "constructor", st)
    nt = False
    for step, op in enumerate(case["ops"]):
        o, a = op[0], op[1]
        s = slots[a]
        what = "%s step %d %s" % (K.name, step, op)
        changed = set()
        st.tag(o)
        if o in ("bin", "oper"):
            _, _, f, others, dst = op
            want = set(M[a])
            for x in others:
                want = getattr(want, f)(M[x])
            if o == "bin":
                r = getattr(s, f)(*[slots[x] for x in others])
            else:
                r = getattr(s, OPER[f])(slots[others[0]])
            if type(r) is not C:
                fail("%s returned a %s" % (what, type(r)))
            if any(r is x for x in slots):
                fail("%s returned one of its operands" % what)
            slots[dst], M[dst] = r, want
            changed.add(dst)
        elif o in ("upd", "ioper"):
            _, _, f, others, _ = op
            others = [x for x in others]
            want = set(M[a])
            for x in others:
                # an operand equal to the target is read at that moment
                want = getattr(want, f)(want if x == a else M[x])
            if o == "upd":
                name = [k for k, v in UPD.items() if v == f][0]
                getattr(s, name)(*[slots[x] for x in others])
            else:
                r = getattr(s, IOPER[f])(slots[others[0]])
                if r is not s:
                    fail("%s did not return the updated collection" % what)
            M[a] = want
            changed.add(a)
        elif o in ("add", "remove", "discard", "contains"):
            x = op[2]
            if isinstance(x, list):
                ms = sorted(M[a])
                if not ms:
                    continue
                x = ms[x[1] % len(ms)]
            obj = K.member(x, op[3])
            if o == "contains":
                st.units += 1
                if (obj in s) != (x in M[a]):
                    fail("%s: %r in it is %s" % (what, obj, obj in s))
                continue
            present = x in M[a]
            try:
                getattr(s, o)(obj)
                raised = False
            except KeyError:
                raised = True
            if raised != (o == "remove" and not present):
                fail("%s: %s of a %s member %s" % (what, o, "present" if present else "missing",
                                                   "raised KeyError" if raised else "did not raise"))
            if o == "add":
                M[a] = M[a] | {x}
            else:
                M[a] = M[a] - {x}
            changed.add(a)
        elif o in ("addelem", "removeelem", "discardelem", "containselem", "flip"):
            b = 1 << op[2]
            e = K.elem(op[2], op[3])
            isedge = K.edges_like and op[2] < K.m
            if K.name == "EdgeVertexSetSet" and o != "containselem" and not (o == "addelem" and not isedge):
                continue            # not offered by this class
            if o == "containselem":
                st.units += 1
                if (e in s) != any(x & b for x in M[a]):
                    fail("%s: %r in it is %s" % (what, e, e in s))
                continue
            if o == "flip":
                s.flip(e)
                M[a] = {x ^ b for x in M[a]}
            elif o == "addelem":
                (s.add_vertex if K.name == "EdgeVertexSetSet" else s.add)(e)
                M[a] = {x | b for x in M[a]}
            else:
                absent = not any(x & b for x in M[a])
                try:
                    getattr(s, o[:-4])(e)
                except KeyError:
                    if not (absent and o == "removeelem"):
                        fail("%s: KeyError although %r is in some member" % (what, e))
                M[a] = {x & ~b for x in M[a]}
            changed.add(a)
        elif o in ("containsvertex", "removevertex", "discardvertex"):
            if K.name not in ("GraphSet", "DiGraphSet"):
                continue
            v = op[2] % len(K.lab)
            b = sum(1 << i for i, e in enumerate(case["u"]["g"]["edges"]) if v in e)
            has = any(x & b for x in M[a])
            if o == "containsvertex":
                st.units += 1
                if (K.lab[v] in s) != has:
                    fail("%s: vertex %r in it is %s" % (what, K.lab[v], not has))
                continue
            try:
                getattr(s, o[:-6])(K.lab[v])
            except KeyError:
                if o == "discardvertex" or has:
                    fail("%s: KeyError although vertex %r is in some member" % (what, K.lab[v]))
            M[a] = {x & ~b for x in M[a]}
            changed.add(a)
        elif o == "pop":
            try:
                g = s.pop()
            except KeyError:
                if M[a]:
                    fail("%s: KeyError on a collection of %d" % (what, len(M[a])))
                continue
            if not M[a]:
                fail("%s: popping an empty collection returned %r" % (what, g))
            x = K.mask(g)
            if x not in M[a]:
                fail("%s: popped %r, which was not in it" % (what, g))
            M[a] = M[a] - {x}
            changed.add(a)
        elif o == "choice":
            try:
                g = s.choice()
                if K.mask(g) not in M[a]:
                    fail("%s: chose %r, which is not in it" % (what, g))
            except KeyError:
                if M[a]:
                    fail("%s: KeyError on a collection of %d" % (what, len(M[a])))
        elif o == "clear":
            if op[2] == 0 and op[3] == 0:
                s.clear()
                M[a] = set()
                changed.add(a)
        elif o == "flipall":
            if K.name == "EdgeVertexSetSet":
                continue
            if K.name == "setset":
                s.flip()
                M[a] = {x ^ K.full for x in M[a]}
                changed.add(a)
            else:
                slots[op[2]], M[op[2]] = s.complement(), {x ^ K.full for x in M[a]}
                changed.add(op[2])
        elif o == "copy":
            slots[op[2]], M[op[2]] = s.copy(), set(M[a])
            changed.add(op[2])
        elif o == "ctor":
            slots[op[2]], M[op[2]] = C(s), set(M[a])
            changed.add(op[2])
        elif o == "ctorself":
            slots[op[2]], M[op[2]] = C(), set()
            changed.add(op[2])
        elif o == "make":
            if op[3] & 48 == 48 or len(M[a]) < 3:
                slots[a], M[a] = K.make(op[2], op[3]), set(op[2])
                changed.add(a)
        elif o == "dict":
            if K.name == "EdgeVertexSetSet" or K.n > 9:
                continue
            inc, exc = op[2], op[3]
            d = {}
            if inc or op[4] & 1:
                d["include"] = list(K.member(inc, 0))
            if exc or op[4] & 2:
                d["exclude"] = list(K.member(exc, 4))
            slots[a] = C(d)
            M[a] = {x for x in range(1 << K.n) if x & inc == inc and not x & exc}
            changed.add(a)
        elif o == "compare":
            for x, y in ((a, op[2]), (op[2], a), (a, op[3])):
                A, B, s1, s2 = M[x], M[y], slots[x], slots[y]
                st.units += 1
                for name, got, want in (
                        ("==", s1 == s2, A == B), ("!=", s1 != s2, A != B), ("<=", s1 <= s2, A <= B),
                        (">=", s1 >= s2, A >= B), ("<", s1 < s2, A < B), (">", s1 > s2, A > B),
                        ("issubset", s1.issubset(s2), A <= B), ("issuperset", s1.issuperset(s2), A >= B),
                        ("isdisjoint", s1.isdisjoint(s2), not A & B)):
                    if bool(got) != want:
                        fail("%s: %s of %r and %r is %s" % (what, name, K.show(A), K.show(B), got))
        elif o == "alias":
            # the operand is changed after the operation; the result must not follow
            b = op[2]
            t = slots[b].copy()
            r = s.union(t)
            t.clear()
            slots[op[3]], M[op[3]] = r, M[a] | M[b]
            changed.add(op[3])
        elif o == "reread":
            changed |= set(range(SLOTS))
        for x in changed:
            check_slot(K, slots[x], M[x], what, st)
        big = [i for i in range(SLOTS) if len(M[i]) > 1]
        if len(big) > 1 and M[big[0]] != M[big[1]] and step >= 4:
            nt = True
    for x in range(SLOTS):
        check_slot(K, slots[x], M[x], "%s at the end of the history, slot %d" % (K.name, x), st)
    st.tag("class " + K.name)
    if nt:
        st.nontrivial = True
