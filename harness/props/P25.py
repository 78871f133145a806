"""Repeating a history does not accumulate memory.

A history of one of the other checks runs again and again in one process; in
the steady state the number of live blocks of the C allocator (countmem.c;
Python's own objects come from it, too) stays where it is."""
import ctypes
import gc
import importlib
import json
import sys

from core import Skip, Violation, fail
from props import P24, P28  # noqa: F401
from src import Src

ENTROPY = 900
RULE = ("the history was repeated at least twelve times and measured, and was non-trivial by the rule of the check it comes "
        "from (for histories of the extension type: at least 8 calls of which two or more accepted); distinct by history")
BUDGET = {"quick": 2000, "thorough": 30000}
CPU_LIMIT = 200
TIMEOUT_OK = True

MIX = [("own", 5), ("P01", 5), ("P02", 2), ("P03", 3), ("P05", 1), ("P06", 2), ("P07", 2), ("P08", 1), ("P10", 2),
       ("P11", 1), ("P12", 1), ("P13", 1), ("P14", 2), ("P15", 1), ("P16", 2), ("P17", 1), ("P18", 1), ("P19", 1),
       ("P20", 2), ("P22", 5), ("P28", 2)]
POOL = [x for x, w in MIX for _ in range(w)]
PER = 2             # repetitions between two measurements
BLOCKS = 1          # blocks kept per repetition
BYTES = 256         # or bytes

_libc = ctypes.CDLL(None)
_blocks, _bytes = _libc.countmem_blocks, _libc.countmem_bytes
_blocks.restype = _bytes.restype = ctypes.c_long


def in_use():
    gc.collect()
    sys._clear_type_cache()         # it holds on to attribute names made on the fly
    gc.collect()
    return _blocks(), _bytes()


def gen(src, tier):
    p = src.choice(POOL)
    if p == "own":
        c = P24.gen_own(src)
        c["ops"] = [o for o in c["ops"] if o[1] not in ("init", "__init__", "module")]
        c["fixed"] = True       # no random choices: the counts they remember differ from one repetition to the next
        return dict(p=p, c=c)
    m = importlib.import_module("props." + p)
    c = m.gen(Src(bytes(src.byte() for _ in range(m.ENTROPY))), "quick")
    if c is None or "huge" in c or "big" in c or "many" in c or c.get("uniform"):
        return None
    if p == "P03":
        c["its"] = [["plain" if k[0] == "rand" else k[0]] + k[1:] for k in c["its"]]
    if p == "P28":
        c["ops"] = [o for o in c["ops"] if o[0] not in ("rnd", "rcopy")]
    return dict(p=p, c=c)


class _Quiet:
    """Stands in for the statistics of the repeated check."""
    def __init__(self):
        self.nontrivial = False
        self.units = 0

    def tag(self, *a):
        pass


def once(p, c):
    q = _Quiet()
    c = json.loads(c)           # every repetition has arguments of its own
    try:
        if p == "own":
            P24.own(c, q)
        else:
            importlib.import_module("props." + p).run(c, q)
    except (Violation, Skip):
        pass                    # what the answers are is not the question here
    return q.nontrivial


def median(grew, i):
    return sorted(d[i] for d in grew)[len(grew) // 2]


def windows(p, c, least, st):
    """Twelve increases in a row, or none, and the number of repetitions."""
    n = 3
    base = in_use()
    grew = []
    for _ in range(40):
        for _ in range(PER):
            once(p, c)
        n += PER
        now = in_use()
        st.units += 1
        d = (now[0] - base[0], now[1] - base[1])
        base = now
        if d[0] < BLOCKS * PER and d[1] < BYTES * PER:
            # one quiet interval: nothing is kept per repetition
            if n >= least:
                return None, n
            grew = []
        else:
            grew.append(d)
            if len(grew) >= 12:
                return grew, n
    return None, n


def run(case, st):
    p, c = case["p"], json.dumps(case["c"])
    st.tag("from " + p)
    nt = once(p, c)
    for _ in range(2):
        once(p, c)
    grew, k = windows(p, c, 9, st)
    if grew:
        # a cache that is still filling up grows more and more slowly, what is
        # kept for good does not
        for _ in range(10 * k):
            once(p, c)
        late, _ = windows(p, c, 0, st)
        k += 10 * k
        if late and 2 * median(late, 0) >= median(grew, 0) and 2 * median(late, 1) >= median(grew, 1):
            fail("every repetition of this history (%s) keeps about %d blocks, %d bytes of memory for good: %r over %d repetitions "
                 "each, and later %r" % (p, median(late, 0) // PER, median(late, 1) // PER, grew, PER, late))
        st.tag("caches that fill up slowly")
    if nt:
        st.nontrivial = True
    st.tag("repetitions", k)
