"""Reference definitions of the directed families (see families.py)."""
import numpy as np

from families import _inr, _range, pyrange

DFAM = {}


def d_cycle(O):
    return (O.ncomps == 1) & (O.ind == O.out).all(axis=1) & (O.ind <= 1).all(axis=1)


def d_path(O, s, t):
    ok = (O.ncomps == 1) & O.forest & (O.out[:, s] == 1) & (O.ind[:, s] == 0) & (O.ind[:, t] == 1) & (O.out[:, t] == 0)
    for v in range(O.n):
        if v not in (s, t):
            ok &= (O.ind[:, v] == O.out[:, v]) & (O.ind[:, v] <= 1)
    return ok


def branching(O):
    return (O.ind <= 1).all(axis=1) & O.forest


DFAM["directed_cycles"] = (lambda src, g: None, lambda f, L, a, **kw: f(**kw), lambda O, a: d_cycle(O))
DFAM["directed_hamiltonian_cycles"] = (lambda src, g: None, lambda f, L, a, **kw: f(**kw),
                                       lambda O, a: d_cycle(O) & (O.nverts == O.n))


def _st(src, g):
    return src.sample(range(g["n"]), 2) + [src.below(3)]


DFAM["directed_st_paths"] = (_st, lambda f, L, a, **kw: f(L.lab[a[0]], L.lab[a[1]], **kw) if a[2] == 2 else
                             f(L.lab[a[0]], L.lab[a[1]], is_hamiltonian=bool(a[2]), **kw),
                             lambda O, a: d_path(O, a[0], a[1]) & ((O.nverts == O.n) if a[2] == 1 else True))


def _rf(src, g):
    r = None
    if src.chance(2, 3):
        r = src.sample(range(g["n"]), src.int(1, 3))
    return [r, src.below(2)]


def _rf_cond(O, a):
    r, sp = a
    ok = branching(O)
    if r is not None:
        for v in range(O.n):
            if v in r:
                ok &= (O.ind[:, v] == 0) & (O.out[:, v] > 0)
            else:
                ok &= (O.ind[:, v] == 1) | (O.out[:, v] == 0)
    if sp:
        ok &= O.touched.all(axis=1)
    return ok


DFAM["rooted_forests"] = (_rf, lambda f, L, a, **kw: f(roots=None if a[0] is None else [L.lab[v] for v in a[0]],
                                                       is_spanning=bool(a[1]), **kw), _rf_cond)


def _rt_cond(O, a):
    r, sp = a
    ok = branching(O) & (O.ncomps == 1) & (O.ind[:, r] == 0) & (O.out[:, r] > 0)
    if sp:
        return ok & O.touched.all(axis=1)
    return ok | (O.cnt == 0)        # the root alone is a (trivial) rooted tree


DFAM["rooted_trees"] = (lambda src, g: [src.below(g["n"]), src.below(2)],
                        lambda f, L, a, **kw: f(L.lab[a[0]], is_spanning=bool(a[1]), **kw), _rt_cond)


def _dg(src, g):
    a = {}
    w = src.below(4)
    for bit, k in ((1, "in"), (2, "out")):
        if w & bit or (w == 0 and src.chance(1, 3)):
            a[k] = [[v, _range(src, 3)] for v in src.subset(range(g["n"]), 2, 3)]
    return a


def _dg_call(f, L, a, **kw):
    for k, t in (("in", "in_degree_constraints"), ("out", "out_degree_constraints")):
        if k in a:
            kw[t] = {L.lab[v]: pyrange(r) for v, r in a[k]}
    return f(**kw)


def _dg_cond(O, a):
    ok = np.ones(O.N, dtype=bool)
    for v, r in a.get("in", []):
        ok &= _inr(O.ind[:, v], r)
    for v, r in a.get("out", []):
        ok &= _inr(O.out[:, v], r)
    return ok


DFAM["graphs"] = (_dg, _dg_call, _dg_cond)
