"""Hermite interpolation."""
import itertools

import numpy as np
from numba import njit

from .. import oracle as O

from interpolation.splines.hermite import HermiteInterpolation, HermiteInterpolationVect, hermite

PROPERTY = "C17"
RULE = (
    "grids: every number of nodes of the bound x every spacing pattern x every interval, plus every increasing "
    "subsequence of length 2..5 of a 7-point set; data: the four monomials (exact cubic reproduction), every "
    "unit vector of values and of slopes (all of the linear map from data to result) and generic data; "
    "locations: every node, both neighbours in floating point of every node, interior fractions of every cell, "
    "points outside near and far, and batches visiting every ordered pair of locations; forms: compiled hermite on scalar, vector and one-column matrix, "
    "HermiteInterpolation, HermiteInterpolationVect; strided, integer and single precision arguments. Expected: "
    "the cubic of the cell in Bernstein form. nontrivial: locations strictly inside a cell"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms"]


@njit
def h_scalar(x0, x, y, yp):
    return hermite(x0, x, y, yp)


@njit
def h_all(x0, x, y, yp):
    out = np.zeros(len(x0))
    for i in range(len(x0)):
        out[i] = hermite(x0[i], x, y, yp)
    return out


@njit
def h_vec(x0, x, y, yp):
    return hermite(x0, x, y, yp)


@njit
def h_mat(x0, x, y, yp):
    return hermite(x0, x, y, yp)


@njit
def h_out(x0, x, y, yp, out):
    return hermite(x0, x, y, yp, out)


@njit
def direct(x0, x, y, yp):
    out = np.zeros(len(x0))
    for i in range(len(x0)):
        out[i] = HermiteInterpolation(x0[i], x, y, yp)
    return out


def scale(x, locs, D):
    """Magnitude of the data of the cell of every location."""
    n = len(x)
    i = np.clip(np.searchsorted(x, locs) - 1, 0, n - 2)
    h = x[i + 1] - x[i]
    D = np.abs(D)
    return np.maximum(D[i], D[i + 1]) + h * np.maximum(D[n + i], D[n + i + 1])


def weights(x, locs):
    """(values, slopes) -> result at locs, as a matrix; Bernstein form of the cubic of the cell."""
    n = len(x)
    W = np.zeros((len(locs), 2 * n))
    for r, l in enumerate(locs):
        if l <= x[0]:
            W[r, 0] = 1.0
        elif l >= x[-1]:
            W[r, n - 1] = 1.0
        else:
            i = 0
            while l > x[i + 1]:
                i += 1
            h = x[i + 1] - x[i]
            t = (l - x[i]) / h
            b0, b1, b2, b3 = (1 - t) ** 3, 3 * t * (1 - t) ** 2, 3 * t * t * (1 - t), t**3
            # control points v0, v0 + h m0/3, v1 - h m1/3, v1
            W[r, i] += b0 + b1
            W[r, i + 1] += b2 + b3
            W[r, n + i] += h / 3 * b1
            W[r, n + i + 1] -= h / 3 * b2
    return W


FR = [0.0625, 0.125, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9375]


def locations(x):
    w = x[-1] - x[0]
    L = []
    for i, k in enumerate(x):
        L += [np.nextafter(k, -np.inf), k, np.nextafter(k, np.inf)]
        if i + 1 < len(x):
            L += [k + f * (x[i + 1] - k) for f in FR]
    L += [x[0] - f * w for f in (1e-9, 0.1, 1, 3, 1e6)] + [x[-1] + f * w for f in (1e-9, 0.1, 1, 3, 1e6)]
    return np.array(L)


def datasets(x):
    n = len(x)
    m = (x[0] + x[-1]) / 2
    D = [np.concatenate([(x - m) ** p, p * (x - m) ** max(p - 1, 0)]) for p in range(4)]
    D += [np.eye(2 * n)[j] for j in range(2 * n)]
    D.append(np.concatenate([O.generic((n,), 1), O.generic((n,), 2)]))
    D.append(np.concatenate([np.full(n, 7.5), np.zeros(n)]))
    return D


def explore(rec, x, full):
    n = len(x)
    L = locations(x)
    W = weights(x, L)
    rec.states += len(L)
    rec.nontrivial += int(np.sum((L > x[0]) & (L < x[-1]) & ~np.isin(L, x)))
    for k, D in enumerate(datasets(x)):
        y, yp = D[:n].copy(), D[n:].copy()
        exp = W @ D
        sc = scale(x, L, D)
        if k < 4:  # the model itself: reproduces cubics
            inside = (L >= x[0]) & (L <= x[-1])
            assert np.all(np.abs(exp - (L - (x[0] + x[-1]) / 2) ** k)[inside] <= 1e-9 * (sc[inside] + (x[-1] - x[0]) ** k))
        args = [x.copy(), y, yp]
        forms = [("vector", lambda: HermiteInterpolationVect(L, *args)), ("hermite vector", lambda: h_vec(L, *args)), ("hermite matrix", lambda: h_mat(L.reshape(-1, 1), *args)), ("hermite scalar", lambda: h_all(L, *args)), ("scalar", lambda: direct(L, *args))]
        if full:
            forms.append(("python scalar", lambda: np.array([HermiteInterpolation(float(l), *args) for l in L])))
            forms.append(("compiled scalar", lambda: np.array([h_scalar(float(l), *args) for l in L])))
        for name, f in forms:
            obs = f()
            rec.transitions += len(L)
            rec.traces += 1
            bad = O.mismatch(obs, exp, sc)
            if bad is not None:
                rec.violate(f"{name}: grid {x.tolist()} values {y.tolist()} slopes {yp.tolist()}: at {L[bad[0]] if not isinstance(bad[0], str) else bad}: got {obs[bad[0]] if not isinstance(bad[0], str) else np.shape(obs)} expected {exp[bad[0]] if not isinstance(bad[0], str) else exp.shape}", key="value:" + name)
                return False
            ends = (L <= x[0]) | (L >= x[-1])
            if not np.array_equal(obs[ends], exp[ends]):
                rec.violate(f"{name}: grid {x.tolist()}: not the end value at or beyond the ends", key="ends")
                return False
        if not (np.array_equal(args[0], x) and np.array_equal(y, D[:n]) and np.array_equal(yp, D[n:])):
            rec.violate(f"arguments modified on grid {x.tolist()}", key="mutation")
            return False
        rec.outcome(obs)
    # the last data are generic: visit every ordered pair of locations one after the other
    D = datasets(x)[-2]
    w = O.walk(len(L), 80)
    exp, sc = (W @ D)[w], scale(x, L, D)[w]
    args = [x.copy(), D[:n].copy(), D[n:].copy()]
    for name, f in (("vector", HermiteInterpolationVect), ("hermite vector", h_vec)):
        obs = f(L[w], *args)
        rec.transitions += len(w)
        rec.traces += 1
        bad = O.mismatch(obs, exp, sc)
        if bad is not None:
            rec.violate(f"{name}: grid {x.tolist()}: value depends on the order of the locations: {L[w][max(0, bad[0] - 2):bad[0] + 1].tolist()}", key="order:" + name)
            return False
    return True


def spaced(rec, ns, spacing):
    for n in ns:
        for iv in O.INTERVALS:
            x = np.linspace(*iv, n) if spacing == "even" else O.knots(spacing, n, *iv)
            if not explore(rec, x, full=n < 4):
                return
    rec.sample(dict(grid=x.tolist()))


def subsets(rec, n, pts):
    for c in itertools.combinations(pts, n):
        if not explore(rec, np.array(c), full=False):
            return
    rec.sample(dict(grid=list(c)))


def stored(rec, ns, how):
    """How arguments are stored and typed, and the unused out argument."""
    for n in ns:
        _stored(rec, n, how)


def _stored(rec, n, how):
    x = np.arange(n) * 3.0 - 4.0
    y, yp = np.round(30 * O.generic((n,), 3)), np.round(10 * O.generic((n,), 4))
    L = locations(x)
    st = lambda a: np.repeat(a, 3)[1::3]
    col = lambda a: np.stack([a, 2 * a], 1)[:, 0]
    rev = lambda a: a[::-1].copy()[::-1]
    plain = lambda a: a.copy()
    integer = lambda a: a.astype(int)
    single = lambda a: a.astype(np.float32)
    maps = dict(plain=plain, strided=st, column=col, reversed=rev, integer=integer, single=single)
    for (a, fa), (b, fb) in itertools.product([(how, maps[how])], maps.items()):
        # a: how the data are stored, b: how the locations are stored
        LL = L
        if b == "integer":
            LL = np.arange(-8, int(x[-1]) + 5).astype(float)
        if b == "single":
            LL = np.array(L, np.float32).astype(float)
        W = weights(x, LL)
        e, s = W @ np.concatenate([y, yp]), scale(x, LL, np.concatenate([y, yp]))
        rec.states += len(LL)
        rec.nontrivial += len(LL)
        P = fb(LL)
        args = [fa(x), fa(y), fa(yp)]
        two = np.stack([P, P + 1], 1)
        out = np.zeros(len(LL))
        for name, f in (("vector", lambda: HermiteInterpolationVect(P, *args)), ("hermite vector", lambda: h_vec(P, *args)), ("hermite matrix", lambda: h_mat(P.reshape(-1, 1), *args)), ("matrix view", lambda: h_mat(two[:, :1], *args)), ("out", lambda: h_out(P, *args, out)), ("hermite scalar", lambda: h_all(P, *args))):
            obs = f()
            rec.transitions += len(LL)
            rec.traces += 1
            bad = O.mismatch(obs, e, s, 1e-5 if "single" in (a, b) else 1e-9)
            if bad is not None:
                rec.violate(f"{name}, data {a}, locations {b}: grid {x.tolist()}: got {obs} expected {e}", key=f"stored:{name}")
                return
    rec.sample(dict(stored=n))


def tasks(tier):
    big = tier == "thorough"
    T = []
    ns = list(range(2, 12)) + [16, 17, 33] if not big else list(range(2, 40)) + [64, 65, 100]
    for s in ["even"] + list(O.SPACINGS):
        for k in range(3):
            T.append((3, "spaced", dict(ns=ns[k::3], spacing=s)))
    pts = [-100.0, -1.5, -1.0, 0.0, 1e-3, 2.0, 50.0] + ([1e-8, 3.0, -0.99, 1e4] if big else [])
    for n in range(2, 6 if not big else 8):
        T.append((4, "subsets", dict(n=n, pts=sorted(pts))))
    for how in ("plain", "strided", "column", "reversed", "integer", "single"):
        T.append((9, "stored", dict(ns=[2, 3, 6], how=how)))
    return T


def warm():
    x = np.array([0.0, 1.0])
    for f in (h_all, h_vec, direct, HermiteInterpolationVect):
        f(x, x, x, x)
    h_mat(x.reshape(-1, 1), x, x, x)
    h_scalar(0.5, x, x, x)
