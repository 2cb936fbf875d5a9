"""Compatibility functions, specialised kernels and gradients."""
import itertools

import numpy as np

from .. import oracle as O
from ..forms import spec

import importlib

ecm = importlib.import_module("interpolation.splines.eval_cubic")
ecn = importlib.import_module("interpolation.splines.eval_cubic_numba")
fcm = importlib.import_module("interpolation.splines.filter_cubic")
mln = importlib.import_module("interpolation.splines.multilinear_numba")
from interpolation.splines import CubicSplines, prefilter  # noqa: E402

PROPERTY = "C09"
RULE = (
    "every compatibility function and every kernel specialised for d=1..4 (scalar/several splines, one/many "
    "locations, allocating/in place over NaN), filtering functions on every node-count tuple of the bound, "
    "values and gradients at the full product of nodes, cell fractions and outside locations up to 1e19 "
    "widths away, 1 to 7 splines, batches of 0 to 10000 locations; expected values and derivatives from the tensor-product natural cubic spline or linear "
    "interpolant. Bounds: d=1 n=2..20, d=2 n=2..5, d=3 n=2..4, d=4 n=2..3; nontrivial: locations off nodes"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms", "kernels are compiled with NUMBA_OPT=0"]

IVS = {1: [[i] for i in range(len(O.INTERVALS))], 2: [[0, 3], [2, 4], [1, 7], [8, 5], [6, 9]], 3: [[0, 3, 1], [2, 4, 5], [7, 8, 6]], 4: [[0, 3, 1, 2], [4, 7, 8, 5]]}


def setup(d, nn, ivs):
    iv = [O.INTERVALS[j] for j in ivs]
    a, b = np.array([x[0] for x in iv]), np.array([x[1] for x in iv])
    n = np.array(nn, dtype=int)
    nodes = [np.linspace(a[i], b[i], nn[i]) for i in range(d)]
    return a, b, n, nodes


def locs(nodes, ts, dist):
    return [np.concatenate([O.inside(x, ts), O.outside(x, dist)]) for x in nodes]


def W(a, b, n, ls, der=None):
    return [O.cub_weights(a[i], b[i], int(n[i]), l, "linear", der[i] if der else 0) for i, l in enumerate(ls)]


def report(rec, what, obs, exp, sc, P):
    rec.transitions += len(P)
    rec.traces += 1
    rec.outcome(np.asarray(obs))
    bad = O.mismatch(obs, exp, sc)
    if bad is None:
        return True
    num = isinstance(bad[0], int)
    rec.violate(f"{what} at {P[bad[0]].tolist() if num else bad}: got {np.asarray(obs)[bad] if num else np.asarray(obs).shape}, expected {exp[bad] if num else exp.shape}", key=what.split()[0])
    return False


def filters(rec, d, ns):
    """filter_coeffs / filter_mcoeffs agree with the main filtering function."""
    for nn in ns:
        nn = tuple(nn)
        for ivs in IVS[d]:
            a, b, n, nodes = setup(d, nn, ivs)
            grid = tuple((float(a[i]), float(b[i]), int(nn[i])) for i in range(d))
            V = O.generic(nn, 2)
            ref = prefilter(grid, V, out=None, k=3)
            P = np.zeros((1, d))
            sc = np.abs(ref).max()
            rec.states += 1
            rec.nontrivial += 1
            for data in (V, V.reshape(-1), np.asfortranarray(V)):
                before = data.copy()
                if not report(rec, f"filter_coeffs {nn} intervals {ivs}", fcm.filter_coeffs(a, b, n, data), ref, sc, P):
                    return
                if not np.array_equal(before, data):
                    rec.violate("filter_coeffs modified its data", key="mutation")
                    return
            if not report(rec, f"filter_coeffs {nn} (lists)", fcm.filter_coeffs(list(a), list(b), n, V), ref, sc, P):
                return
            for k in (1, 3):
                M = O.generic(nn + (k,), 3)
                r = np.stack([prefilter(grid, M[..., j].copy(), out=None, k=3) for j in range(k)], -1)
                if not report(rec, f"filter_mcoeffs {nn} {k} splines", fcm.filter_mcoeffs(a, b, n, M), r, np.abs(r).max(), P):
                    return
    rec.sample(dict(filter=d, shapes=[list(x) for x in ns][:4]))


NSP = (2, 1, 3, 7, 2, 5)
NB = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2049, 4096, 4097, 10000]


def batches(rec, which, d, a, b, n, C, D, P, exp):
    """Batches of every listed size: row i is the result at location i."""
    L = len(P)
    for N in NB if d < 4 else NB[::2]:
        for start in (0, 1):
            idx = (start + 7 * np.arange(N)) % L if L % 7 else (start + np.arange(N)) % L
            Q = P[idx]
            nk = D.shape[-1]
            v, g = np.full((N, nk), np.nan), np.full((N, d, nk), np.nan)
            o = np.full(N, np.nan)
            if which == "compat1":
                got = [ecm.vec_eval_cubic_spline(a, b, n, C, Q)]
                ecm.vec_eval_cubic_spline(a, b, n, C, Q, o)
                got.append(o)
            elif which == "compatm":
                got = [ecm.vec_eval_cubic_splines(a, b, n, D, Q)]
                ecm.vec_eval_cubic_splines(a, b, n, D, Q, v)
                got.append(v)
            elif which == "kernel1":
                getattr(ecn, f"vec_eval_cubic_spline_{d}")(a, b, n, C, Q, o)
                got = [o]
            elif which == "kernelm":
                getattr(ecn, f"vec_eval_cubic_splines_{d}")(a, b, n, D, Q, v)
                got = [v]
            else:
                w, h = ecm.vec_eval_cubic_splines_G(a, b, n, D, Q)
                ecm.vec_eval_cubic_splines_G(a, b, n, D, Q, v, g)
                got = [w, h, v, g]
            rec.states += 1
            rec.nontrivial += N > 1
            for q, r in enumerate(got):
                e, sc = exp[q % len(exp)]
                if N and not report(rec, f"batch {which} of {N} locations d={d}", r, e[idx], sc[idx], Q):
                    return False
                if not N and np.asarray(r).shape != e[:0].shape:
                    rec.violate(f"{which}: empty batch gives shape {np.asarray(r).shape}", key="batch")
                    return False
    return True


def evals(rec, d, ns, which, ts, dist, rows, grad=True):
    cnt = 0
    for nn in ns:
        nn = tuple(nn)
        for ivs in IVS[d]:
            a, b, n, nodes = setup(d, nn, ivs)
            grid = tuple((float(a[i]), float(b[i]), int(nn[i])) for i in range(d))
            ls = locs(nodes, ts, dist)
            P = O.product_points(ls)
            rec.states += len(P)
            rec.nontrivial += len(P) - int(np.prod(nn))
            V = O.generic(nn, 2)
            nk = NSP[cnt % len(NSP)]
            cnt += 1
            M = O.generic(nn + (nk,), 3)
            C = prefilter(grid, V, out=None, k=3)
            D = prefilter(grid, M, out=None, k=3)
            w = W(a, b, n, ls)
            e1, s1 = O.tensor(V, w), O.scale(V, w)
            e2, s2 = O.tensor(M, w), O.scale(M, w)
            pick = list(range(0, len(P), max(1, len(P) // rows)))
            nm = f"d={d} grid {spec(grid)}"
            if which == "compat1":
                if not report(rec, f"vec_eval_cubic_spline {nm}", ecm.vec_eval_cubic_spline(a, b, n, C, P), e1, s1, P):
                    return
                out = np.full(len(P), np.nan)
                ecm.vec_eval_cubic_spline(a, b, n, C, P, out)
                if not report(rec, f"vec_eval_cubic_spline in place {nm}", out, e1, s1, P):
                    return
                r = np.array([ecm.eval_cubic_spline(a, b, n, C, P[i]) for i in pick])
                if not report(rec, f"eval_cubic_spline {nm}", r, e1[pick], s1[pick], P[pick]):
                    return
            elif which == "compatm":
                if not report(rec, f"vec_eval_cubic_splines {nm}", ecm.vec_eval_cubic_splines(a, b, n, D, P), e2, s2, P):
                    return
                out = np.full(e2.shape, np.nan)
                ecm.vec_eval_cubic_splines(a, b, n, D, P, out)
                if not report(rec, f"vec_eval_cubic_splines in place {nm}", out, e2, s2, P):
                    return
                r = np.array([ecm.eval_cubic_splines(a, b, n, D, P[i]) for i in pick])
                if not report(rec, f"eval_cubic_splines {nm}", r, e2[pick], s2[pick], P[pick]):
                    return
                out = np.full((len(pick), nk), np.nan)
                for q, i in enumerate(pick):
                    ecm.eval_cubic_splines(a, b, n, D, P[i], out[q])
                if not report(rec, f"eval_cubic_splines in place {nm}", out, e2[pick], s2[pick], P[pick]):
                    return
            elif which == "kernel1":
                out = np.full(len(P), np.nan)
                getattr(ecn, f"vec_eval_cubic_spline_{d}")(a, b, n, C, P, out)
                if not report(rec, f"vec_eval_cubic_spline_{d} {nm}", out, e1, s1, P):
                    return
                f = getattr(ecn, f"eval_cubic_spline_{d}")
                r = np.array([f(a, b, n, C, P[i]) for i in range(len(P))])
                if not report(rec, f"eval_cubic_spline_{d} {nm}", r, e1, s1, P):
                    return
            elif which == "kernelm":
                out = np.full(e2.shape, np.nan)
                getattr(ecn, f"vec_eval_cubic_splines_{d}")(a, b, n, D, P, out)
                if not report(rec, f"vec_eval_cubic_splines_{d} {nm}", out, e2, s2, P):
                    return
                f = getattr(ecn, f"eval_cubic_splines_{d}")
                out = np.full(e2.shape, np.nan)
                for i in range(len(P)):
                    f(a, b, n, D, P[i], out[i])
                if not report(rec, f"eval_cubic_splines_{d} {nm}", out, e2, s2, P):
                    return
            elif which == "gradient":
                res = []
                res.append(("allocating", *ecm.vec_eval_cubic_splines_G(a, b, n, D, P)))
                v, g = np.full(e2.shape, np.nan), np.full((len(P), d, nk), np.nan)
                r = ecm.vec_eval_cubic_splines_G(list(a), list(b), list(nn), D, P, v, g)
                res.append(("in place", v, g))
                res.append(("returned", r[0], r[1]))
                getattr(ecn, f"vec_eval_cubic_splines_G_{d}")(a, b, n, D, P, v2 := np.full(e2.shape, np.nan), g2 := np.full((len(P), d, nk), np.nan))
                res.append(("kernel", v2, g2))
                if d < 4:
                    o = CubicSplines(a, b, n, M)
                    res.append(("object", *o.interpolate(P, diff=True)))
                G, GS = [], []
                for i in range(d):
                    wi = W(a, b, n, ls, [int(j == i) for j in range(d)])
                    G.append(O.tensor(M, wi))
                    GS.append(O.scale(M, wi))
                G, GS = np.stack(G, 1), np.stack(GS, 1)
                for how, v, g in res:
                    if not report(rec, f"gradient-values {how} {nm}", v, e2, s2, P):
                        return
                    if not report(rec, f"gradient {how} {nm}", g, G, GS, P):
                        return
    exp = [(e1, s1)] if which.endswith("1") else [(e2, s2)] if which != "gradient" else [(e2, s2), (G, GS)]
    if not batches(rec, which, d, a, b, n, C, D, P, exp):
        return
    rec.sample(dict(which=which, grid=spec(grid), location=P[len(P) // 2].tolist(), value=repr(e1[len(P) // 2])))


def linear(rec, d, ns):
    for nn in ns:
        nn = tuple(nn)
        for ivs in IVS[d]:
            a, b, n, nodes = setup(d, nn, ivs)
            ls = locs(nodes, (0.375,), (0.0, 0.4, 1e5))
            P = O.product_points(ls)
            w = [O.lin_weights(x, l) for x, l in zip(nodes, ls)]
            V, M = O.generic(nn, 2), O.generic(nn + (3,), 3)
            rec.states += len(P)
            rec.nontrivial += len(P) - int(np.prod(nn))
            for nm, f, D in (("multilinear_interpolation", mln.multilinear_interpolation, V), ("vec_multilinear_interpolation", mln.vec_multilinear_interpolation, M)):
                e, s = O.tensor(D, w), O.scale(D, w)
                if not report(rec, f"{nm} d={d} {nn}", f(a, b, n, D, P), e, s, P):
                    return
                out = np.full(e.shape, np.nan)
                f(a, b, n, D, P, out)
                if not report(rec, f"{nm} in place d={d} {nn}", out, e, s, P):
                    return
    rec.sample(dict(linear=d, shapes=[list(x) for x in ns][:4]))


def tasks(tier):
    T = []
    big = tier == "thorough"
    far = [0.0, 0.3, 40.0, 1e6, 1e12, 1e19]
    n1 = [[n] for n in (2, 3, 4, 5, 8, 20)] + ([[n] for n in range(6, 40)] if big else [])
    n2 = list(itertools.product((2, 3, 5), repeat=2)) if not big else list(itertools.product(range(2, 7), repeat=2))
    n3 = [(2, 3, 4), (4, 2, 3), (3, 4, 2), (2, 2, 2)] + (list(itertools.product((2, 3, 4), repeat=3)) if big else [])
    n4 = [(2, 3, 4, 2), (3, 2, 2, 4)] if not big else list(itertools.product((2, 3), repeat=4))
    T.append((3, "filters", dict(d=1, ns=[[n] for n in list(range(2, 41)) + [64, 65, 200]])))
    T.append((3, "filters", dict(d=2, ns=list(itertools.product(range(2, 6 if not big else 9), repeat=2)) + [(17, 3), (2, 30)])))
    T.append((5, "filters", dict(d=3, ns=list(itertools.product(range(2, 5), repeat=3)))))
    T.append((8, "filters", dict(d=4, ns=list(itertools.product((2, 3), repeat=4)) + [(4, 5, 2, 3), (5, 2, 4, 3)])))
    for which in ("compat1", "compatm", "kernel1", "kernelm", "gradient"):
        T.append((8, "evals", dict(d=1, ns=n1, which=which, ts=[0.25, 0.875], dist=far, rows=25)))
        T.append((9, "evals", dict(d=2, ns=n2, which=which, ts=[0.25, 0.875], dist=far[:3] + [1e12], rows=25)))
        T.append((14, "evals", dict(d=3, ns=n3, which=which, ts=[0.375], dist=[0.3, 1e12], rows=12)))
        T.append((30 if which == "gradient" else 35 if which[:3] == "com" else 20, "evals", dict(d=4, ns=n4, which=which, ts=[0.375], dist=[0.4], rows=6)))
    for d, ns in ((1, n1), (2, n2), (3, n3), (4, n4)):
        T.append((3, "linear", dict(d=d, ns=ns)))
    return T
