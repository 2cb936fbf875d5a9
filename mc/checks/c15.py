"""Smolyak interpolation."""
import itertools

import numpy as np

from .. import oracle as O
from .. import smolyak_ref as S

from interpolation.smolyak import SmolyakInterp

PROPERTY = "C15"
RULE = (
    "every grid of C14's list: interpolation of every polynomial of the Smolyak basis (all together as "
    "vector data, and one by one as scalar data up to 60 polynomials) at locations of the whole domain, and of "
    "generic data at every grid point; batches of every size to 40 and sizes around powers of 2 and 10 to 10001 in five "
    "memory layouts, values and gradients; every sequence of updates and evaluations of two interpolants sharing "
    "a grid up to length 4 (also with one array of locations filled again and again), results re-read at the end; nontrivial: polynomials other than the constant"
)
ASSUMPTIONS = ["values are compared up to 1e-8 of the largest value of the data"]


def near(a, b, sc=1.0, eps=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= eps * (sc + np.abs(b).max())))


def repro(rec, cases):
    for d, mu, lb, ub in cases:
        what = f"d={d} density {mu} bounds {lb}, {ub}"
        l, u = S.bounds(d, lb, ub)
        sg = S.build(d, mu, lb, ub)
        D = S.degrees(d, mu)
        G = np.asarray(sg.grid, float)
        P = S.locations(d, l, u)
        FG, _ = S.basis(D, l, u, G)
        FP, _ = S.basis(D, l, u, P)
        if len(D) != len(G):
            rec.violate(f"{what}: {len(G)} points for {len(D)} polynomials", key="count")
            return
        si = SmolyakInterp(sg, FG)
        rec.states += len(D)
        rec.nontrivial += len(D) - 1
        rec.transitions += len(D)
        rec.traces += 2
        r = si.interpolate(P)
        rec.outcome(r)
        if not near(r, FP):
            k = int(np.argmax(np.abs(np.asarray(r) - FP).max(axis=0))) if np.asarray(r).shape == FP.shape else -1
            rec.violate(f"{what}: polynomial of degrees {D[k]} not reproduced (vector data)", key="vector")
            return
        for k in range(min(len(D), 60)):
            s1 = SmolyakInterp(sg, FG[:, k].copy())
            rec.transitions += 1
            if not near(s1.interpolate(P), FP[:, k]):
                rec.violate(f"{what}: polynomial of degrees {D[k]} not reproduced (scalar data)", key="scalar")
                return
            if k < 3 and not near(s1.interpolate(P[:1]), FP[:1, k]):
                rec.violate(f"{what}: one location", key="one")
                return
        for data in (O.generic((len(G),), 1), O.generic((len(G), 1), 2), O.generic((len(G), 3), 3), 1e6 * O.generic((len(G),), 4)):
            s2 = SmolyakInterp(sg, data.copy())
            rec.transitions += 1
            rec.traces += 1
            if not near(s2.interpolate(G), data, 0.0):
                rec.violate(f"{what}: data not reproduced at the grid points", key="nodes")
                return
        coef = O.generic((len(D), 2), 9)
        s3 = SmolyakInterp(sg, FG @ coef)
        csc = np.abs(coef).max()
        buf = {}
        for Q in S.structured(d, l, u):
            B = buf.setdefault(Q.shape, np.empty(Q.shape))
            B[...] = Q
            rec.states += 1
            rec.transitions += 1
            rec.traces += 1
            if not near(s3.interpolate(B), S.basis(D, l, u, Q)[0] @ coef, csc) or not np.array_equal(B, Q):
                rec.violate(f"{what}: values at the batch {Q.tolist()}", key="structured")
                return
    rec.sample(dict(d=d, mu=mu, polynomials=len(D), bounds=[l.tolist(), u.tolist()]))


OPS = ["a.update0", "a.update1", "a.update2v", "b.update", "a.eval", "a.grad", "b.eval", "a.all", "new", "a.buffer", "a.evalbuf"]


def histories(rec, d, mu, lb, ub, depth, first):
    l, u = S.bounds(d, lb, ub)
    sg = S.build(d, mu, lb, ub)
    D = S.degrees(d, mu)
    G = np.asarray(sg.grid, float)
    P = S.locations(d, l, u, 4)
    BG, _ = S.basis(D, l, u, G)
    BP, GP = S.basis(D, l, u, P)
    n = len(D)
    c = [O.generic((n,), 1), O.generic((n,), 2), O.generic((n, 2), 3), O.generic((n,), 5)]
    for L in range(1, depth + 1):
        for h in itertools.product(OPS, repeat=L):
            if h[0] != first:
                continue
            A, ma = SmolyakInterp(sg, BG @ c[0]), c[0]
            Bo, mb = SmolyakInterp(sg, BG @ c[3]), c[3]
            buf = np.empty(n)
            loc = np.empty_like(P)
            turn = 0
            kept = []
            rec.states += 1
            rec.nontrivial += any("update" in o or o in ("new", "a.buffer") for o in h)
            rec.traces += 1
            for op in h + ("a.evalbuf", "a.eval", "b.eval", "a.grad"):
                rec.transitions += 1
                ok = True
                if op.startswith("a.update"):
                    k = int(op[8])
                    A.update_theta(BG @ c[k])
                    ma = c[k]
                elif op == "a.buffer":  # one array handed over again and again with new content
                    buf[...] = BG @ (c[1] * (1 + 0.5 * len(kept)))
                    A.update_theta(buf)
                    ma = c[1] * (1 + 0.5 * len(kept))
                elif op == "b.update":
                    Bo.update_theta(BG @ c[1])
                    mb = c[1]
                elif op == "new":
                    Bo, mb = SmolyakInterp(sg, BG @ c[2]), c[2]
                elif op == "a.eval":
                    r = A.interpolate(P)
                    kept.append((r, r.copy()))
                    ok = near(r, BP @ ma)
                elif op == "a.evalbuf":  # one array of locations filled again and again
                    turn = (turn + 1) % len(P)
                    loc[...] = np.roll(P, turn, axis=0)
                    r = A.interpolate(loc)
                    kept.append((r, r.copy()))
                    ok = near(r, np.roll(BP, turn, axis=0) @ ma)
                    if ok:
                        r = A.interpolate(loc, deriv=True)[1]
                        kept.append((r, r.copy()))
                        ok = near(r, np.tensordot(np.roll(GP, turn, axis=0), ma, 1), np.abs(GP).max())
                elif op == "b.eval":
                    r = Bo.interpolate(P)
                    kept.append((r, r.copy()))
                    ok = near(r, BP @ mb)
                elif op == "a.grad":
                    r = A.interpolate(P, interp=False, deriv=True)
                    kept.append((r, r.copy()))
                    ok = near(r, np.tensordot(GP, ma, 1))
                elif op == "a.all":
                    r = A.interpolate(P, deriv=True, deriv_th=True, deriv_X=True)
                    kept += [(q, q.copy()) for q in r]
                    ok = near(r[0], BP @ ma)
                if not ok:
                    rec.violate(f"d={d} density {mu}: after {h}, {op} is not that of the last data", key="history", history=list(h))
                    return
            rec.outcome(kept[-1][0])
            if any(not np.array_equal(x, y) for x, y in kept):
                rec.violate(f"d={d} density {mu}: after {h} a result returned earlier changed", key="kept")
                return
    rec.sample(dict(d=d, mu=mu, history=list(h)))


SIZES = list(range(0, 41)) + [49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4999, 5000, 5001, 8192, 8193, 9999, 10000, 10001]


def layouts(P):
    """The same locations in every memory layout."""
    yield "C", P
    yield "F", np.asfortranarray(P)
    big = np.full((2 * len(P), 2 * P.shape[1]), 7.5)
    big[::2, ::2] = P
    yield "strided", big[::2, ::2]
    yield "reversed", P[::-1, ::-1].copy()[::-1, ::-1]
    ro = P.copy()
    ro.setflags(write=False)
    yield "read-only", ro


def batches(rec, d, mu, lb, ub, sizes):
    """Batches of every listed size, in every layout: each row is what it is alone, for values and gradients."""
    l, u = S.bounds(d, lb, ub)
    sg = S.build(d, mu, lb, ub)
    D = S.degrees(d, mu)
    G = np.asarray(sg.grid, float)
    Q = S.locations(d, l, u, max(sizes))
    BG, _ = S.basis(D, l, u, G)
    n = len(D)
    c = [O.generic((n,), 1), O.generic((n, 3), 2)]
    objs = [SmolyakInterp(sg, BG @ x) for x in c]
    BQ, GQ = S.basis(D, l, u, Q)
    exp = [(BQ @ x, np.tensordot(GQ, x, 1)) for x in c]
    for N in sizes:
        for off in (0, 1):
            P = Q[off : off + N]
            for name, A in layouts(P):
                for o, (ev, eg), ci in zip(objs, exp, c):
                    rec.states += 1
                    rec.nontrivial += N > 1
                    rec.transitions += 2
                    rec.traces += 1
                    keep = A.copy()
                    v = o.interpolate(A)
                    w = o.interpolate(A, deriv=True)
                    rec.outcome(v)
                    if N == 0:
                        ok = np.asarray(v).shape == ev[:0].shape and np.asarray(w[1]).shape == eg[:0].shape
                    else:
                        ok = near(v, ev[off : off + N]) and near(w[0], ev[off : off + N]) and near(w[1], eg[off : off + N], np.abs(eg).max())
                    if not ok or not np.array_equal(keep, A):
                        rec.violate(f"d={d} density {mu}: batch of {N} locations ({name}), data of shape {ci.shape}", key="batch", size=N, layout=name)
                        return
    rec.sample(dict(d=d, mu=mu, sizes=sizes[-3:]))


def tasks(tier):
    T = []
    for cfg in [(2, 2, [0.0, -1.0], [2.0, 5.0]), (3, [1, 2, 1], 1, 4), (2, 4, None, None), (4, 2, -1, 3)]:
        for i in range(4):
            T.append((6, "batches", dict(d=cfg[0], mu=cfg[1], lb=cfg[2], ub=cfg[3], sizes=SIZES[i::4])))
    g = S.grids(tier)
    for i in range(24):
        T.append((5, "repro", dict(cases=g[i::24])))
    big = tier == "thorough"
    for f in OPS:
        T.append((6, "histories", dict(d=2, mu=2, lb=[0.0, -1.0], ub=[2.0, 5.0], depth=5 if big else 4, first=f)))
        T.append((4, "histories", dict(d=3, mu=[1, 2, 1], lb=1, ub=4, depth=4 if big else 3, first=f)))
    return T
