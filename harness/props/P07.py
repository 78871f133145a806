"""Round trips through dump/dumps and load/loads, in the same and in other processes."""
import gc
import os
import pickle
import resource
import tempfile

from classes import Cls, diff, gen_member, gen_members, gen_universe, universe_size
from core import fail
from iso import ChildError, in_child

ENTROPY = 700
RULE = ("a family of at least three members was restored and used further, in another process or after other work in "
        "the same one; distinct by universe, families, way of saving and history")
BUDGET = {"quick": 6000, "thorough": 200000}


def gen_noise(src):
    """Work done around the saving or loading: other universes and collections."""
    return [[src.choice(["setset", "GraphSet", "VertexSetSet", "DiGraphSet", "drop", "ops"]), src.int(1, 14),
             src.bits(24)] for _ in range(src.int(0, 4))]


def gen(src, tier):
    u = gen_universe(src, nmax=src.choice([3, 6, 8]))
    k = src.choice(["same", "same", "cross", "cross", "file", "file", "stream", "wide", "full"])
    fams = [gen_members(src, u, 0, src.choice([2, 6, 25])) for _ in range(src.int(1, 4) if k == "stream" else 2)]
    n = universe_size(u)
    return dict(k=k, u=u, f=fams, pre=gen_noise(src), mid=gen_noise(src), mode=src.choice(["b", "t"]),
                api=src.below(2), weights=src.chance(1, 4), limit=src.choice([0, src.below(200), src.below(3000)]), comp=src.chance(1, 4), cyl=[src.bits(n), src.bits(n)],
                ops=[[src.below(5), gen_member(src, u), src.below(n)] for _ in range(src.int(1, 4))])


FIXED = [dict(limit=60, k=k, u=dict(cls="setset", n=3, kind="int1", perm=[0, 1, 2]), f=f, pre=[], mid=[], mode="b", api=a,
              weights=False, comp=False, cyl=[0, 0], ops=[[0, 5, 1]])
         for k in ("same", "cross", "file", "stream", "full") for a in (0, 1)
         for f in ([[], []], [[0], [0]], [[0], []], [[], [0], [1, 2], [0, 7]], [[3], [3, 0]])]


def noise(steps, keep, own=None):
    """Other work on independent classes; own names the class in use."""
    import graphillion as g
    for kind, n, bits in steps:
        if kind == "drop":
            keep.clear()
            gc.collect()
        elif kind == "ops":
            if keep:
                c = keep[bits % len(keep)]
                keep.append((c | c.copy()) - c)
        elif kind == own or (own in ("GraphSet", "VertexSetSet", "EdgeVertexSetSet") and kind in ("GraphSet", "VertexSetSet")):
            continue            # would replace the universe in use
        else:
            C = getattr(g, kind)
            el = [(i, i + 1) for i in range(n)] if kind in ("GraphSet", "DiGraphSet") else list(range(1, n + 1))
            C.set_universe(el)
            sets = [[el[i] for i in range(n) if (bits >> j) >> i & 1] for j in range(3)]
            keep.append(C([set(x) for x in sets] if kind == "setset" else sets))


def stored(K):
    """The universe as a program would save it."""
    import graphillion as g
    C = g.GraphSet if K.name == "EdgeVertexSetSet" else K.C
    return pickle.dumps(C.universe())


def restore(K, blob):
    import graphillion as g
    U = pickle.loads(blob)
    if K.name == "setset":
        K.C.set_universe(U)
    elif K.name == "VertexSetSet":
        g.Universe.set_vertex_universe(U, tuple_vertex=True)
    elif K.name == "EdgeVertexSetSet":
        g.GraphSet.set_universe(U, traversal="as-is")
    else:
        K.C.set_universe(U, traversal="as-is")


def save(cols, api, mode, path):
    if api == 0:
        return [c.dumps() for c in cols]
    for i, c in enumerate(cols):
        with open(path + str(i), "w" + ("b" if mode == "b" else "")) as fp:
            c.dump(fp)
    return None


def dump_limited(c, path, mode, limit):
    """Dumps into a file that cannot grow beyond a number of bytes; the error raised, if any."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    with open(path, "w" + ("b" if mode == "b" else "")) as fp:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
        try:
            c.dump(fp)
        except Exception as e:
            return e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    return None


def load(C, k, api, mode, path, texts):
    if api == 0:
        return [C.loads(t) for t in texts]
    r = []
    for i in range(k):
        with open(path + str(i), "r" + ("b" if mode == "b" else "")) as fp:
            r.append(C.load(fp))
    return r


def exercise(K, c, fam, ops, what, st):
    """The loaded collection has to behave like any other."""
    fam = set(fam)
    for o, m, e in ops:
        if o == 0:
            c.add(K.member(m, 1))
            fam.add(m)
        elif o == 1:
            c.discard(K.member(m, 1))
            fam.discard(m)
        elif o == 2 and K.name != "EdgeVertexSetSet":
            c.flip(K.elem(e))
            fam = {x ^ (1 << e) for x in fam}
        elif o == 3 and K.name != "EdgeVertexSetSet" and K.n <= 10:
            c = ~c
            fam = set(range(1 << K.n)) - fam
        elif o == 4:
            c = c | K.make([m])
            fam.add(m)
        st.units += 1
        got = K.read(c)
        if got != fam:
            fail("%s, then step %r: %s" % (what, [o, m, e], diff(K, got, fam)))


def build(K, case):
    cols, fams = [], []
    for i, f in enumerate(case["f"]):
        c, fam = K.make(f), set(f)
        if case["comp"] and K.name != "EdgeVertexSetSet" and K.n <= 9 and i == 0:
            c, fam = ~c, set(range(1 << K.n)) - fam
        cols.append(c)
        fams.append(fam)
    return cols, fams


def compare(K, c, fam, what, st):
    st.units += 1
    if type(c) is not K.C:
        fail("%s: a %s is returned" % (what, type(c)))
    got = K.read(c)
    if got != fam:
        fail("%s: %s" % (what, diff(K, got, fam)))
    if c.len() != len(fam) or bool(c) != bool(fam):
        fail("%s: length %s of %d members" % (what, c.len(), len(fam)))


def run(case, st):
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        run_in(case, st, os.path.join(d, "f"))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def run_in(case, st, path):
    import graphillion as g
    u, k, api, mode = case["u"], case["k"], case["api"], case["mode"]
    what = "%s %s" % (u["cls"], "dumps/loads" if api == 0 else "dump/load (%s)" % mode)
    st.tag(k)
    st.tag("class " + u["cls"])
    if k == "cross":
        def writer():
            keep = []
            noise(case["pre"], keep)
            K = Cls(u)
            noise(case["mid"], keep, K.name)
            cols, fams = build(K, case)
            texts = save(cols, api, mode, path)
            return stored(K), texts, fams

        def reader(blob, texts, fams):
            from core import Stats, Violation
            s = Stats()
            try:
                keep = []
                noise(case["mid"], keep)
                K = Cls(u, register=False)
                restore(K, blob)
                noise(case["pre"], keep, K.name)
                cols = load(K.C, len(fams), api, mode, path, texts)
                for i, c in enumerate(cols):
                    compare(K, c, fams[i], what + " into another process", s)
                if cols[0] != K.make(sorted(fams[0])):
                    fail(what + " into another process: not equal to the collection built there")
                exercise(K, cols[0], fams[0], case["ops"], what + " into another process", s)
                return "", s.units
            except Violation as e:
                return str(e), s.units
        try:
            blob, texts, fams = in_child(writer)
            msg, units = in_child(reader, blob, texts, fams)
        except ChildError as e:
            fail(what + ": " + str(e))
        st.units += units
        if msg:
            fail(msg)
        if len(fams[0]) >= 3:
            st.nontrivial = True
        return
    keep = []
    noise(case["pre"], keep)
    K = Cls(u, register=not (case["weights"] and u["cls"] in ("GraphSet", "DiGraphSet")))
    if case["weights"] and u["cls"] in ("GraphSet", "DiGraphSet"):
        src = None if u["g"]["src"] < 0 else K.lab[u["g"]["src"]]
        K.C.set_universe([e + (i * 0.5 - 1,) for i, e in enumerate(K.elems)], traversal=u["g"]["trav"], source=src)
    if k == "wide" and K.name != "EdgeVertexSetSet" and K.n > 9:
        # a cylinder over a large universe: compared without enumeration
        inc, exc = case["cyl"][0] & case["cyl"][1], ~(case["cyl"][0] | case["cyl"][1]) & K.full
        conv = set if K.name == "setset" else list
        c = K.C({"include": conv(K.member(inc, 0)), "exclude": conv(K.member(exc, 0))}) | K.make(case["f"][0])
        texts = save([c], api, mode, path)
        noise(case["mid"], keep, K.name)
        r = load(K.C, 1, api, mode, path, texts)[0]
        st.units += 1
        if r != c or r.len() != c.len() or type(r) is not K.C:
            fail("%s of a large family: %d members read back, %d saved" % (what, r.len(), c.len()))
        r.flip(K.elem(0))
        c.flip(K.elem(0))
        if r != c:
            fail("%s of a large family: differs after flip" % what)
        st.nontrivial = True
        return
    cols, fams = build(K, case)
    if k == "full":
        for c, f in zip(cols, fams):
            size = len(c.dumps().encode())
            e = dump_limited(c, path, mode, case["limit"])
            with open(path, "r" + ("b" if mode == "b" else "")) as fp:
                try:
                    r = K.C.load(fp)
                except Exception as e2:
                    r = None
            w = "%s: dump of %d bytes into a file that takes %d" % (K.name, size, case["limit"])
            if e is None:
                if r is None:
                    fail(w + ": reported as saved, but cannot be read back")
                compare(K, r, f, w, st)
            elif case["limit"] >= 2 * size + 100:
                fail(w + ": %r" % (e,))
            if r is not None and e is not None and case["limit"] < size // 2:
                fail(w + ": half a file is read as a collection of %d" % r.len())
            if e is not None:
                st.tag("write error raised")
                st.nontrivial = st.nontrivial or len(f) >= 3
            compare(K, c, f, w + " (the collection itself)", st)
        k = "file"
    if k == "stream":
        # several collections one after another in one file
        with open(path, "wb") as fp:
            for c in cols:
                c.dump(fp)
        noise(case["mid"], keep, K.name)
        with open(path, "rb") as fp:
            back = []
            for c in cols:
                back.append(K.C.load(fp))
        what = "%s, %d collections in one file" % (K.name, len(cols))
    else:
        texts = save(cols, api, mode, path)
        for c, f in zip(cols, fams):
            compare(K, c, f, what + " (the saved collection itself)", st)
        if case["mid"] and len(case["mid"]) % 2:
            cols = []
            gc.collect()            # the numbers in the text must not depend on live nodes
        noise(case["mid"], keep, K.name)
        if case["ops"][0][0] == 0:
            blob = stored(K)
            restore(K, blob)
            st.tag("universe restored")
        back = load(K.C, len(fams), api, mode, path, texts)
        again = save(back, 0, mode, path)
        for t, f in zip(again, fams):
            compare(K, K.C.loads(t), f, what + ", saved and loaded twice", st)
    for i, (c, f) in enumerate(zip(back, fams)):
        compare(K, c, f, what + " no. %d" % i, st)
        if cols and not (c == cols[i]):
            fail("%s: not equal to the saved one" % what)
    exercise(K, back[0], fams[0], case["ops"], what, st)
    if len(fams[0]) >= 3 and (case["mid"] or k in ("stream", "file")):
        st.nontrivial = True
