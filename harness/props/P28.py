"""The C++ class graphillion::setset as a set of sets, driven through its
public members by native.cc and compared with a model."""
import ctypes
import os
import sys

from classes import (m_hitting, m_join, m_maximal, m_meet, m_minimal, m_quotient, m_remainder, m_subsets, m_supersets,
                     popcount)
from core import fail

ENTROPY = 700
RULE = ("at least four operations ran on collections one of which had three or more members; distinct by universe and "
        "operations")
BUDGET = {"quick": 16000, "thorough": 400000}
REGS = 4

_lib = None


def load():
    """The extension (its symbols made visible) and the driver."""
    global _lib
    if _lib is None:
        old = sys.getdlopenflags()
        sys.setdlopenflags(os.RTLD_NOW | os.RTLD_GLOBAL)
        try:
            import _graphillion  # noqa: F401
        finally:
            sys.setdlopenflags(old)
        _lib = ctypes.CDLL(os.environ["VERIF_NATIVE"])
        _lib.native_run.restype = ctypes.c_char_p
    return _lib


if "VERIF_NATIVE" in os.environ:
    load()                      # before anything else imports the extension


def native(*lines):
    return load().native_run(("\n".join(lines) + "\n").encode()).decode().split("\n")[:-1]


# ------------------------------------------------------------------ cases

def member(src, n, pool=()):
    if pool and src.chance(1, 3):
        x = src.choice(pool)
        if src.chance(1, 2):
            x ^= 1 << src.below(n)
        return x
    if n > 12 and src.chance(1, 3):
        return ~src.bits(n) & src.bits(n) | 1 << src.below(n)
    return src.bits(n)


def members(src, n, hi):
    r = []
    for _ in range(src.int(0, hi)):
        r.append(member(src, n, r))
    return r


BIN = ["and", "or", "sub", "xor", "join", "meet", "subsets", "supersets", "non_subsets", "non_supersets", "div", "mod"]
INP = ["and", "or", "sub", "xor", "div", "mod"]
UN = ["smaller", "larger", "set_size", "supersets", "non_supersets", "minimal", "maximal", "complement", "inv", "hitting"]
LOOK = ["find", "count", "iter", "size", "cmp", "rnd", "min", "max", "dump", "enum", "icopy", "wcopy", "rcopy", "snap", "multi", "prob",
        "cost"]
CHANGE = ["insert", "hint", "erase", "erasepos", "inselem", "eraelem", "flip", "flipall", "clear", "swap", "copy"]
BRACES = [["{", "}", "{", "}"], ["[", "]", "(", ")"], ["", "", "<", ">"], ["{ ", " }", "%d", "%s"],
          ["begin\n", "end\n", "", ";"]]


def gen(src, tier):
    n = src.choice([4, 1, 2, 3, 5, 6, 7, 8, 4, 5, 6, 20, 33, 60])
    hi = src.choice([4, 8, 16])
    ops = []
    for r in range(2):
        ops.append(["vec", r, members(src, n, hi)])
    pool = ops[0][2] + ops[1][2]
    for _ in range(src.int(3, 24)):
        k = src.below(16)
        a, b, r = src.below(REGS), src.below(REGS), src.below(REGS)
        if src.chance(1, 3):
            a = 0
        if k < 3:
            ops.append(["bin", src.choice(BIN), r, a, b])
        elif k < 5:
            ops.append(["inp", src.choice(INP), a, b])
        elif k < 7:
            op = src.choice(UN)
            if op in ("supersets", "non_supersets"):
                x = src.int(1, n)
            elif pool and src.chance(1, 2):
                x = max(0, popcount(src.choice(pool)) + src.int(-1, 1))
            else:
                x = src.int(0, n + 1)
            ops.append(["un", op, r, a, x])
        elif k < 11:
            op = src.choice(LOOK)
            w = [src.int(-3, 4) for _ in range(min(n, 60))] if op in ("min", "max", "prob", "cost", "wcopy", "rcopy") else []
            ops.append([op, a, b, member(src, n, pool), w, src.below(12)])
        elif k < 15:
            op = src.choice(CHANGE)
            ops.append([op, a, b, member(src, n, pool), src.int(1, n)])
        elif src.chance(1, 4):
            ops.append(["load", src.choice(["ctor", "shr", "stream", "file"]), r, a, src.below(8)])
        elif src.chance(1, 2):
            ops.append(["map", r, member(src, n), member(src, n), src.below(4)])
        else:
            ops.append(["vec", r, members(src, n, hi)])
    if sum(len(o[2]) for o in ops if o[0] == "vec") == 0:
        return None
    return dict(n=n, ops=ops)


# ------------------------------------------------------------------- run

def tok(x):
    return ",".join(str(i + 1) for i in range(x.bit_length()) if x >> i & 1) or "-"


def untok(t):
    return 0 if t == "-" else sum(1 << int(i) - 1 for i in t.split(","))


def nums(w):
    return ",".join(str(x) for x in w) or "-"


def esc(t):
    return "=" + t.replace("%", "%p").replace("\n", "%n").replace(" ", "%s")


def unesc(t):
    return t[1:].replace("%n", "\n").replace("%s", " ").replace("%p", "%")


class Run:
    def __init__(self, n, st):
        self.n = n
        self.st = st
        self.M = [set() for _ in range(REGS)]
        self.log = []

    def do(self, line):
        self.log.append(line)
        r = native(line)
        if len(r) != 1:
            fail("driver out of step on %r" % line)
        if r[0].startswith("!"):
            self.bad("raised %s" % r[0][1:])
        return r[0]

    def bad(self, msg):
        fail("C++ setset over %d elements, after %s: %s" % (self.n, "; ".join(self.log[-12:])[-1500:], msg))

    def same(self, got, exp, what):
        self.st.units += 1
        if got != exp:
            self.bad("%s is %s, %s expected" % (what, str(got)[:300], str(exp)[:300]))

    def limit(self, a):
        return len(self.M[a]) + 3

    def sets(self, text):
        return [x if x == "..." else untok(x) for x in text.split()]

    def listing(self, got, exp, what):
        """Every member once, in any order."""
        self.st.units += 1
        if len(got) != len(exp) or set(got) != exp:
            self.bad("%s gives %s, the members are %s" % (what, str(got)[:300], str(sorted(exp))[:300]))

    def members(self, a):
        return self.sets(self.do("iter %d %d" % (a, self.limit(a))))

    def check(self, a):
        self.listing(self.members(a), self.M[a], "begin() of %d" % a)
        exp = "%d %d" % (len(self.M[a]), not self.M[a])
        self.same(self.do("size %d" % a), exp, "size() and empty() of %d" % a)


def binary(op, A, B):
    if op == "and":
        return A & B
    if op == "or":
        return A | B
    if op == "sub":
        return A - B
    if op == "xor":
        return A ^ B
    if op == "div":
        return m_quotient(A, B)
    if op == "mod":
        return m_remainder(A, B)
    if op == "join":
        return m_join(A, B)
    if op == "meet":
        return m_meet(A, B)
    if op == "subsets":
        return m_subsets(A, B)
    if op == "supersets":
        return m_supersets(A, B)
    if op == "non_subsets":
        return A - m_subsets(A, B)
    return A - m_supersets(A, B)


def run(case, st):
    n = case["n"]
    R = Run(n, st)
    M = R.M
    # the elements exist before the universe has its size
    R.do("vec 0 %s" % tok(1 << n - 1))
    for a in range(REGS):
        R.do("new %d" % a)
    g = R.do("univ %d" % n)
    R.same(g, "%d 1 1" % n, "num_elems(n), then num_elems(), max_elem() >= n, elem_limit() >= max_elem()")
    done = 0
    big = False
    for o in case["ops"]:
        op = o[0]
        touched = []
        if op == "vec":
            _, r, ms = o
            R.do("vec %d %s" % (r, " ".join(tok(x) for x in ms)))
            M[r] = set(ms)
            touched = [r]
        elif op == "map":
            _, r, i, e, form = o
            if n > 12:
                # few elements stay free
                free = 0x1F & ~i if n > 12 else 0
                e = ~i & ((1 << n) - 1) & ~free
            else:
                e &= ~i
            if form == 1 and n <= 12:
                i = 0
            if form == 2 and n <= 12:
                e = 0
            R.do("map %d %d %s %s" % (r, n, "." if form == 1 and n <= 12 else tok(i),
                                      "." if form == 2 and n <= 12 else tok(e)))
            rest = [k for k in range(n) if not (i | e) >> k & 1]
            M[r] = set()
            for m in range(1 << len(rest)):
                M[r].add(i | sum(1 << k for j, k in enumerate(rest) if m >> j & 1))
            touched = [r]
        elif op in ("bin", "inp"):
            if op == "bin":
                _, f, r, a, b = o
            else:
                _, f, a, b = o
                r = a
            if f in ("div", "mod") and not M[b]:
                continue
            if len(M[a]) * len(M[b]) > 3000 and f in ("join", "meet", "div", "mod", "subsets", "supersets",
                                                      "non_subsets", "non_supersets"):
                continue
            new = binary(f, M[a], M[b])
            if len(new) > 400:
                continue
            R.do("bin %s %d %d %d" % (f, r, a, b) if op == "bin" else "inp %s %d %d" % (f, a, b))
            M[r] = new
            touched = [r, b] if r != b else [r]
        elif op == "un":
            _, f, r, a, x = o
            A = M[a]
            if f in ("complement", "inv", "hitting") and n > 8:
                continue
            full = set(range(1 << n)) if n <= 8 else None
            if f in ("complement", "inv"):
                new = full - A
                x = n
            elif f == "hitting":
                new = m_hitting(A, n)
                x = n
            elif f == "minimal":
                new = m_minimal(A)
            elif f == "maximal":
                new = m_maximal(A)
            elif f == "smaller":
                new = {y for y in A if popcount(y) < x}
            elif f == "larger":
                new = {y for y in A if popcount(y) > x}
            elif f == "set_size":
                new = {y for y in A if popcount(y) == x}
            elif f == "supersets":
                new = {y for y in A if y >> x - 1 & 1}
            else:
                new = {y for y in A if not y >> x - 1 & 1}
            R.do("un %s %d %d %d" % (f, r, a, x))
            M[r] = new
            touched = [r]
        elif op in LOOK:
            look(R, o)
        elif op in CHANGE:
            touched = change(R, o)
        elif op == "load":
            touched = reload(R, o)
        done += 1
        st.tag(op if op not in ("bin", "inp", "un") else o[1])
        for a in touched:
            R.check(a)
        big = big or any(len(A) >= 3 for A in M)
    for a in range(REGS):
        R.check(a)
    R.same(R.do("nelem"), str(n), "num_elems() at the end")
    st.nontrivial = done >= 4 and big


def look(R, o):
    op, a, b, x, w, k = o
    M, n = R.M, R.n
    A = M[a]
    lim = R.limit(a)
    if op == "find":
        got = R.do("find %d %d %s" % (a, lim, tok(x)))
        if x not in A:
            R.same(got, "end", "find of a set that is not a member")
        else:
            if got == "end":
                R.bad("find of the member %s gives end()" % tok(x))
            order = R.members(a)
            R.same(R.sets(got), order[order.index(x):], "the members from find(%s) on" % tok(x))
    elif op == "count":
        R.same(R.do("count %d %s" % (a, tok(x))), str(int(x in A)), "count(%s)" % tok(x))
    elif op in ("iter", "size"):
        R.check(a)
    elif op == "cmp":
        B = M[b]
        exp = [A == B, A != B, A <= B, A < B, A >= B, A > B, not A & B, A <= B, A >= B, A == B]
        R.same(R.do("cmp %d %d" % (a, b)), "".join(str(int(v)) for v in exp),
               "== != <= < >= > disjoint subset superset and the equality of ids of %d and %d" % (a, b))
    elif op == "rnd":
        R.listing(R.sets(R.do("rnd %d %d" % (a, lim))), A, "begin_randomly()")
    elif op in ("min", "max"):
        got = R.sets(R.do("%s %d %d %s" % (op, a, lim, nums(w))))
        R.listing(got, A, "begin_from_%s()" % op)
        ws = [sum(v for i, v in enumerate(w) if y >> i & 1) for y in got]
        R.same(ws, sorted(ws, reverse=op == "max"), "the order of weights of begin_from_%s()" % op)
    elif op == "icopy":
        order = R.members(a)
        got = R.do("icopy %d %d %d" % (a, k, lim)).split("|")
        for t in got:
            R.same(R.sets(t), order[k:], "the members after %d steps of an iterator and of its copy" % k)
    elif op in ("wcopy", "rcopy"):
        parts = [R.sets(t) for t in R.do("%s %d %d %d %s" % (op, a, k, lim, nums(w))).split("|")]
        for t in parts[1:]:
            got = parts[0] + t
            R.listing(got, A, "%s: %d steps, then an iterator and its copy" % (op, k))
            if op == "wcopy":
                ws = [sum(v for i, v in enumerate(w) if y >> i & 1) for y in got]
                R.same(ws, sorted(ws, reverse=True), "the order of weights of an iterator and of its copy")
    elif op == "snap":
        got = R.do("snap %d %d" % (a, lim))
        R.same(got[-1], "E", "a collection whose members were erased one after another")
        R.listing(R.sets(got[:-1]), A, "an iteration that erases what it gives")
    elif op == "multi":
        rs = [a, b, (a + 1) % REGS][:1 + k % 3]
        R.same(R.do("multi %s %s" % ("stream" if k & 4 else "file", " ".join(map(str, rs)))), "1" * len(rs),
               "equality of %s dumped into one stream and loaded back" % rs)
    elif op == "dump":
        t = [unesc(y) for y in R.do("dump %d" % a).split()]
        if len(set(t)) != 1:
            R.bad("dump to a stream, << and dump to a file differ: %r" % t)
        R.same(reach(t[0]), A, "the collection that the dump describes")
    elif op == "enum":
        br = BRACES[k % len(BRACES)]
        got = [unesc(y) for y in R.do("enum %d %s" % (a, " ".join(esc(y) for y in br))).split()]
        for t, bb in ((got[0], br), (got[1], BRACES[0]), (got[2], br)):
            order = R.members(a)
            items = [bb[2] + ", ".join(str(i + 1) for i in range(n) if y >> i & 1) + bb[3] for y in order]
            R.st.units += 1
            if not (t.startswith(bb[0]) and t.endswith(bb[1])
                    and listed(t[len(bb[0]):len(t) - len(bb[1])], items)):
                R.bad("_enum with the braces %r writes %r" % (bb, t[:400]))
    elif op == "prob":
        p = [((v + 3) / 7.0) for v in w]
        exp = 0.0
        for y in A:
            q = 1.0
            for i in range(n):
                q *= p[i] if y >> i & 1 else 1 - p[i]
            exp += q
        got = float(R.do("prob %d %d %s" % (a, n, nums(p))))
        R.st.units += 1
        if abs(got - exp) > 1e-9:
            R.bad("probability is %r, %r expected" % (got, exp))
    else:
        bound = k - 5
        R.do("cost %d %d %d %s" % (b, a, bound, nums(w)))
        M[b] = {y for y in A if sum(v for i, v in enumerate(w) if y >> i & 1) <= bound}
        R.check(b)


def listed(t, items):
    """t consists of the items in some order, separated by commas."""
    if not items:
        return t == ""
    left = {}
    for x in items:
        left[x] = left.get(x, 0) + 1
    by_len = sorted(left, key=len, reverse=True)
    pos = 0
    for k in range(len(items)):
        if k:
            if t[pos:pos + 2] != ", ":
                return False
            pos += 2
        for x in by_len:
            e = pos + len(x)
            if left[x] and t[pos:e] == x and (e == len(t) or t[e:e + 2] == ", ") and (e == len(t)) == (k == len(items) - 1):
                left[x] -= 1
                pos = e
                break
        else:
            return False
    return pos == len(t)


def reach(text):
    """The members of a dump, read by the format's definition."""
    lines = text.split("\n")
    if lines[-2:] != [".", ""]:
        return "no final line in %r" % text[-40:]
    lines = lines[:-2]
    if lines in (["B"], ["T"]):
        return set() if lines == ["B"] else {0}
    N = {"B": set(), "T": {0}}
    for l in lines:
        w = l.split()
        if len(w) != 4 or w[2] not in N or w[3] not in N:
            return "line %r" % l
        N[w[0]] = N[w[2]] | {x | 1 << int(w[1]) - 1 for x in N[w[3]]}
    return N[lines[-1].split()[0]]


def change(R, o):
    op, a, b, x, e = o
    M = R.M
    A = M[a]
    if op in ("insert", "hint"):
        M[a] = A | {x}
        got = R.do("%s %d %d %s" % (op, a, R.limit(a), tok(x))).split(None, 1)
        R.same(got[0], "-" if op == "hint" else str(int(x not in A)), "what %s(%s) says" % (op, tok(x)))
        order = R.members(a)
        R.same(R.sets(got[1] if got[1:] else ""), order[order.index(x):] if x in order else None,
               "the members from where %s(%s) points" % (op, tok(x)))
    elif op == "erase":
        R.same(R.do("erase %d %s" % (a, tok(x))), str(int(x in A)), "what erase(%s) returns" % tok(x))
        M[a] = A - {x}
    elif op == "erasepos":
        R.same(R.do("erasepos %d %s" % (a, tok(x))), "erased" if x in A else "end", "erase(find(%s))" % tok(x))
        M[a] = A - {x}
    elif op == "inselem":
        R.do("inselem %d %d" % (a, e))
        M[a] = {y | 1 << e - 1 for y in A}
    elif op == "eraelem":
        R.do("eraelem %d %d" % (a, e))
        M[a] = {y & ~(1 << e - 1) for y in A}
    elif op == "flip":
        R.do("flip %d %d" % (a, e))
        M[a] = {y ^ 1 << e - 1 for y in A}
    elif op == "flipall":
        R.do("flipall %d %d" % (a, e))
        M[a] = {y ^ (1 << e) - 1 for y in A}
    elif op == "clear":
        R.do("clear %d" % a)
        M[a] = set()
    elif op == "swap":
        R.do("swap %d %d" % (a, b))
        M[a], M[b] = M[b], M[a]
    else:
        R.do("copy %d %d" % (b, a))
        M[b] = set(A)
    return [a] if a == b else [a, b]


def reload(R, o):
    _, how, r, a, k = o
    M = R.M
    text = unesc(R.do("dump %d" % a).split()[0])
    lines = text.split("\n")[:-1]
    good = True
    if k == 1:
        text = "\n".join(lines[:-1]) + "\n"             # no final line
        good = False
    elif k == 2:
        text = ""
        good = False
    elif k == 3 and len(lines) > 2:
        text = "\n".join(lines[1:]) + "\n"              # a node that others name is missing
        good = False
    elif k == 4:
        text = "\n".join(l + "\n" for l in lines) + "\n"    # empty lines
    elif k == 5:
        text = text[:-1]                                # no newline at the end
    elif k == 6:
        text = "x" + text
        good = False
    before = set(M[r])
    got = R.do("load %s %d %s" % (how, r, esc(text)))
    R.same(got, "ok" if good else "bad", "loading (%s) %r" % (how, text[:200]))
    M[r] = set(M[a]) if good else before
    if good:
        R.same(R.do("cmp %d %d" % (r, a))[0], "1", "equality of a collection and what was loaded from its dump")
    return [r]
