"""Generated API histories under AddressSanitizer.

The histories are those of the other checks (every class, every operation,
searches, iteration with live iterators, files, universes, rejected calls),
plus histories of the extension type itself; what the answers are is their
business - here only memory errors and abnormal exits count.  Python's own
objects are allocated with malloc, so that the sanitizer also sees objects
released once too often."""
import gc
import importlib
import io
import os

from core import Skip, Violation, fail
from props import P28  # noqa: F401  (loads the extension so that the driver sees its symbols)
from src import Src

ENTROPY = 1500
RULE = ("the history ran to its end under the sanitizer and was non-trivial by the rule of the check it comes from (for "
        "histories of the extension type: at least 8 calls of which two or more accepted); distinct by history")
BUDGET = {"quick": 2800, "thorough": 60000}
CPU_LIMIT = 200
TIMEOUT_OK = True       # the sanitizer is slow

MIX = [("own", 6), ("P01", 4), ("P02", 2), ("P03", 3), ("P04", 1), ("P05", 1), ("P06", 1), ("P07", 2), ("P08", 1), ("P10", 1),
       ("P11", 1), ("P12", 1), ("P13", 1), ("P14", 1), ("P15", 1), ("P16", 1), ("P17", 1), ("P18", 1), ("P19", 1),
       ("P20", 2), ("P22", 4), ("P28", 3)]
POOL = [x for x, w in MIX for _ in range(w)]


def mod(p):
    return importlib.import_module("props." + p)


def gen(src, tier):
    parts = []
    for _ in range(1 + src.below(2)):
        p = src.choice(POOL)
        if p == "own":
            parts.append([p, gen_own(src)])
        else:
            c = mod(p).gen(Src(bytes(src.byte() for _ in range(mod(p).ENTROPY))), "quick")
            if c is not None:
                parts.append([p, c])
    return dict(parts=parts)


def fixed():
    out = []
    for p in ("P22", "P03", "P07"):
        for i, c in enumerate(getattr(mod(p), "FIXED", [])[:24]):
            if not (p == "P03" and ("huge" in c or c.get("uniform", 0) > 400)):
                out.append(dict(parts=[[p, c]]))
    return out


FIXED = fixed()

# ---------------------------------------------------------------- the extension type

BIN = ["union", "intersection", "difference", "symmetric_difference", "update", "intersection_update", "difference_update",
       "symmetric_difference_update"]
BIN1 = ["quotient", "quotient_update", "remainder", "remainder_update", "isdisjoint", "issubset", "issuperset", "join", "meet",
        "subsets", "supersets", "non_subsets", "non_supersets", "__or__", "__and__", "__sub__", "__xor__", "__ior__",
        "__iand__", "__isub__", "__ixor__", "__truediv__", "__itruediv__", "__mod__", "__imod__", "__eq__", "__ne__",
        "__le__", "__lt__", "__ge__", "__gt__"]
UN = ["copy", "minimal", "maximal", "clear", "remove_some_element", "len", "__len__", "__bool__", "dumps", "enums", "__repr__",
      "pop", "choice", "invert", "__invert__"]
ELEM = ["add", "remove", "discard", "__contains__", "supersets", "non_supersets", "flip"]
INT = ["smaller", "larger", "set_size", "hitting", "complement", "flip_all", "add_some_element", "remove_add_some_elements", "len"]
ITER = ["iter", "rand_iter", "max_iter", "min_iter"]
MISC = ["probability", "cost_le", "dump", "load", "loads", "enum", "new", "drop", "next", "next", "next", "gc", "to_vss",
        "top", "init", "module"]
JUNK = [None, 1.0, "", b"", 2.5, "x", (), range(0), {}, {1}, frozenset([1]), {None}, {"a"}, b"x", range, 10 ** 30, {2.5}, {1: 2}, {"a": 1}, object]
NOJUNK = {"flip", "add_some_element", "remove_add_some_elements", "hitting", "complement", "flip_all", "max_iter", "min_iter"}


def gen_own(src):
    n = src.int(1, 8)
    init = [[sorted(src.sample(range(1, n + 1), src.below(n + 1))) for _ in range(src.int(0, 6))] for _ in range(2)]
    ops = []
    for _ in range(src.int(8, 40)):
        k = src.below(8)
        tgt = src.below(8)
        if k == 0:
            # one or several operands
            ops.append(["bin", src.choice(BIN), tgt, [src.below(8) for _ in range(src.below(4))]])
        elif k == 1:
            ops.append(["bin1", src.choice(BIN1), tgt, [src.below(8)]])
        elif k == 2:
            ops.append(["un", src.choice(UN), tgt])
        elif k == 3:
            ops.append(["elem", src.choice(ELEM), tgt, src.bits(n), src.int(1, n)])
        elif k == 4:
            ops.append(["int", src.choice(INT), tgt, src.int(0, n + 1)])
        elif k == 5:
            ops.append(["iter", src.choice(ITER), tgt, [src.int(-9, 9) for _ in range(n + 1)]])
        elif k == 6:
            ops.append(["misc", src.choice(MISC), tgt, src.below(256), src.below(256)])
        else:
            g = src.choice(["bin", "bin1", "elem", "int", "iter", "miscj"])
            nm = src.choice({"bin": BIN, "bin1": BIN1, "elem": ELEM, "int": INT, "iter": ITER,
                             "miscj": ["probability", "cost_le", "dump", "load", "loads", "enum", "__init__",
                                       "_to_vertexsetset", "_to_edgevertexsetset"]}[g])
            if nm in NOJUNK:        # the Python classes pass elements of the universe only
                nm = "smaller"
            ops.append(["junk", nm, tgt, [src.below(len(JUNK)) for _ in range(src.below(3))]])
    # elements beyond 256 are integer objects of their own
    off = src.choice([0, 0, 0, 300])
    if off:     # not those that take the whole universe
        ops = [o for o in ops if o[1] not in ("hitting", "complement", "invert", "__invert__", "flip_all", "add_some_element",
                                              "remove_add_some_elements")]
    return dict(n=n, init=init, ops=ops, off=off)


def own(case, st):
    import _graphillion as M
    S = M.setset
    n = case["n"]
    off = case.get("off", 0)
    S([set(range(1, off + n + 1))])
    objs = [S([{off + i for i in x} for x in f]) for f in case["init"]]
    its = []
    done = good = 0
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p24-%d" % os.getpid())

    def take(r):
        # keep results that are collections (also the target itself, once more)
        if isinstance(r, S):
            objs.append(r)
            if len(objs) > 8:
                objs.pop(0)

    for op in case["ops"]:
        k, nm = op[0], op[1]
        t = objs[op[2] % len(objs)]
        done += 1
        try:
            if k in ("bin", "bin1"):
                take(getattr(t, nm)(*[objs[i % len(objs)] for i in op[3]]))
            elif k == "un":
                take(getattr(t, nm)())
            elif k == "elem":
                x = off + op[4] if nm in ("supersets", "non_supersets", "flip") else {
                    off + i + 1 for i in range(n) if op[3] >> i & 1}
                take(getattr(t, nm)(x))
            elif k == "int":
                take(getattr(t, nm)(op[3] if nm in ("smaller", "larger", "set_size", "len") else off + n))
            elif k == "iter":
                w = op[3]
                if nm == "rand_iter" and case.get("fixed") and t.len() > 1:
                    nm = "iter"
                it = iter(t) if nm == "iter" else t.rand_iter() if nm == "rand_iter" else getattr(t, nm)(
                    [1] * (1 + off) + w[1:] + [1] * 9000)
                its.append(it)
                if len(its) > 5:
                    its.pop(0)
                next(it, None)
            elif k == "junk":
                args = [JUNK[i] for i in op[3]]
                if nm == "iter" or nm == "rand_iter" and case.get("fixed"):
                    iter(t)
                else:
                    take(getattr(t, nm)(*args))
            else:
                a, b = op[3], op[4]
                if nm == "probability":
                    t.probability(off + n, [0.1 * (i % 11) for i in range(off + n + 1)] + [0.5] * 700)
                elif nm == "cost_le":
                    take(t.cost_le(costs=[(a * i + b) % 7 for i in range(off + n)], cost_bound=b % 20))
                elif nm in ("dump", "enum"):
                    with open(path, "w") as fp:
                        getattr(t, nm)(fp)
                elif nm == "load":
                    with open(path, "w") as fp:
                        fp.write(t.dumps() if a % 3 else t.dumps()[:b])
                    with open(path) as fp:
                        take(M.load(fp))
                elif nm == "loads":
                    s = t.dumps()
                    if a % 3 == 0:
                        s = s[:b % (len(s) + 1)] + chr(32 + b % 90) + s[b % (len(s) + 1):]
                    take(M.loads(s))
                elif nm == "new":
                    take(S([[{off + i % n + 1 for i in (a, b)}, set(), {n}], [], t, {"include": {off + 1}, "exclude": {2}}][a % 4]))
                elif nm == "drop":
                    if len(objs) > 1:
                        objs.pop(op[2] % len(objs))
                elif nm == "next":
                    if its:
                        next(its[a % len(its)], None)
                elif nm == "gc":
                    gc.collect()
                elif nm == "to_vss":
                    take(t._to_vertexsetset() if False else t.copy())
                elif nm == "init":
                    t.__init__([{1 + a % n}] if a % 2 else objs[b % len(objs)])
                elif nm == "module":
                    its.append(iter(S([{1 + a % (n + 9)}])))
            good += 1
        except (TypeError, ValueError, KeyError, StopIteration, OverflowError, RuntimeError, ZeroDivisionError, AttributeError,
                IndexError, OSError, MemoryError):
            pass
        t = None
    for it in its:
        for _ in range(5):
            next(it, None)
    for o in objs:
        o.len()
        repr(o)
    del objs, its, t
    gc.collect()
    try:
        os.unlink(path)
    except OSError:
        pass
    st.units += done
    if done >= 8 and good >= 2:
        st.nontrivial = True
    st.tag("accepted calls", good)
    st.tag("rejected calls", done - good)


def run(case, st):
    for p, c in case["parts"]:
        st.tag("from " + p)
        if p == "own":
            own(c, st)
            continue
        try:
            mod(p).run(c, st)
        except (Violation, Skip):
            pass                # not a question of memory
        except MemoryError:
            pass
        gc.collect()
        st.units += 1
