"""B-spline basis functions."""
import itertools
from fractions import Fraction

import numpy as np

from .. import oracle as O

from interpolation.splines.basis_splines import B

try:
    from interpolation.splines.basis_splines import B0
except ImportError:
    B0 = lambda u, i, x: B(0, u, i, x)

PROPERTY = "C20"
RULE = (
    "every knot vector among: all increasing subsequences of length 2..8 of a 9-point set, and equidistant / "
    "uneven knots of every interval and count of the bound; every degree 0..6 (quick), 0..8 (thorough) and every "
    "index that has its knots; every knot, its floating point neighbours, fractions of every cell and outside "
    "points. Expected: divided differences of the truncated power, in exact rational arithmetic; nonnegative, "
    "exactly zero outside the support, partition of unity where all p+1 functions exist; hat functions; 1/6, "
    "2/3, 1/6. One array refilled with other knots. Floats, numpy scalars, lists, arrays and exact fractions as knots. nontrivial: locations inside "
    "the support"
)
ASSUMPTIONS = ["results are compared up to a relative 1e-9 plus 1e-14; exactly for exact fractions"]


def divided(knots, f):
    """Divided difference of f over distinct knots."""
    t = [f(k) for k in knots]
    m = len(knots)
    for j in range(1, m):
        t = [(t[i + 1] - t[i]) / (knots[i + j] - knots[i]) for i in range(m - j)]
    return t[0]


def reference(p, u, i, x):
    """(u[i+p+1]-u[i]) times the divided difference of the truncated power (t-x)_+^p, right-continuous."""
    k = u[i : i + p + 2]
    trunc = lambda t: (Fraction(0) if t <= x else (t - x) ** p)
    return (k[-1] - k[0]) * divided(k, trunc)


def locs(u):
    L = []
    for j, k in enumerate(u):
        L += [np.nextafter(k, -np.inf), k, np.nextafter(k, np.inf)]
        if j + 1 < len(u):
            L += [k + f * (u[j + 1] - k) for f in (1e-7, 0.125, 0.5, 0.7, 1 - 1e-7)]
    w = u[-1] - u[0]
    L += [u[0] - 0.3 * w, u[0] - 100 * w, u[-1] + 0.3 * w, u[-1] + 100 * w]
    return [float(l) for l in L]


def one(rec, u, pmax, kinds=("list",)):
    n = len(u)
    F = [Fraction(float(k)) for k in u]
    as_kind = dict(list=lambda: [float(k) for k in u], array=lambda: np.array(u), tuple=lambda: tuple(float(k) for k in u), exact=lambda: F)
    for kind in kinds:
        U = as_kind[kind]()
        for p in range(pmax + 1):
            top = n - p - 1
            if top < 1:
                break
            for x in locs(u):
                X = Fraction(x) if kind == "exact" else (np.float64(x) if kind == "array" else x)
                fx = Fraction(x)
                total = 0
                for i in range(top):
                    r = B(p, U, i, X)
                    e = reference(p, F, i, fx)
                    rec.states += 1
                    rec.transitions += 1
                    rec.nontrivial += e != 0
                    inside = F[i] <= fx < F[i + p + 1]
                    tol = 0 if kind == "exact" and p > 0 else 1e-9
                    if kind == "exact" and p > 0 and inside and r != e and abs(float(r - e)) < 1e-9:
                        r = e  # indicator values are floats: arithmetic may be rounded
                    # a sum of nonnegative terms: errors are relative to the result, but for rounding of the weights
                    if abs(float(r) - float(e)) > tol * float(e) + min(tol, 1e-14) or not r >= 0 or (not inside and r != 0):
                        rec.violate(f"B({p}, {[float(k) for k in u]}, {i}, {x!r}) [{kind}] = {float(r)!r}, expected {float(e)!r}", key="value")
                        return False
                    if p == 0 and (B0(U, i, X) != (1 if inside else 0) or r != (1 if inside else 0)):
                        rec.violate(f"B0({[float(k) for k in u]}, {i}, {x!r}) = {B0(U, i, X)}", key="B0")
                        return False
                    total += r
                    if p == 1:
                        lo, mid, hi = F[i : i + 3]
                        hat = (fx - lo) / (mid - lo) if lo <= fx <= mid else (hi - fx) / (hi - mid) if mid < fx < hi else Fraction(0)
                        if abs(float(r) - float(hat)) > 1e-9:
                            rec.violate(f"hat function {i} of {u} at {x}: {r}", key="hat")
                            return False
                rec.traces += 1
                # all p+1 functions that are nonzero on the cell of x exist
                if top > p and F[p] <= fx < F[top] and abs(float(total) - 1) > 1e-9:
                    rec.violate(f"degree {p} functions of {list(u)} sum to {float(total)!r} at {x!r}", key="unity")
                    return False
            rec.outcome(p, kind, tuple(float(k) for k in u))
    return True


def subsets(rec, pts, m, pmax, part, parts):
    for j, c in enumerate(itertools.combinations(pts, m)):
        if j % parts == part:
            if not one(rec, list(c), min(pmax, m - 2), ("list", "array", "tuple", "exact") if j < 4 else ("list",)):
                return
    rec.sample(dict(knots=list(c)))


def refilled(rec, m, pmax):
    """One array of knots holding one knot vector after the other, at locations they share."""
    U = np.empty(m)
    vecs = [c for c in itertools.combinations(range(7), m)]
    for p in range(pmax + 1):
        for i in range(m - p - 1):
            for x in (0.5, 1.0, 2.25, 3.0, 3.5, 5.75):
                for c in vecs:
                    U[...] = c
                    r = B(p, U, i, x)
                    e = float(reference(p, [Fraction(k) for k in c], i, Fraction(x)))
                    rec.states += 1
                    rec.transitions += 1
                    rec.nontrivial += e != 0
                    if abs(float(r) - e) > 1e-9 * e + 1e-14:
                        rec.violate(f"B({p}, {list(c)} in a refilled array, {i}, {x}) = {float(r)!r}, expected {e!r}", key="refilled")
                        return
                rec.traces += 1
    rec.sample(dict(refilled=m))


def regular(rec, spacing, ns, pmax):
    for n in ns:
        for iv in O.INTERVALS:
            u = list(O.knots(spacing, n, *iv))
            if not one(rec, u, min(pmax, n - 2)):
                return
            if spacing == "lin" and n >= 5:
                h = (iv[1] - iv[0]) / (n - 1)
                for i in range(n - 4):
                    for j, e in ((1, 1 / 6), (2, 2 / 3), (3, 1 / 6)):
                        r = B(3, u, i, float(u[i + j]))
                        if abs(r - e) > 1e-9:
                            rec.violate(f"cubic function {i} at knot {i + j} of {u}: {r} instead of {e}", key="sixth")
                            return
    rec.sample(dict(spacing=spacing, n=n))


def tasks(tier):
    big = tier == "thorough"
    pmax = 8 if big else 6
    pts = [-1000.0, -2.0, -1.0, 0.0, 0.001, 0.5, 1.0, 2.0, 7.0] + ([3.25, 1e4] if big else [])
    pts.sort()
    T = []
    for m in range(2, 9 if not big else 11):
        P = 1 if m < 4 else 4
        T += [(m, "subsets", dict(pts=pts, m=m, pmax=pmax, part=k, parts=P)) for k in range(P)]
    for m in range(2, 7):
        T.append((5, "refilled", dict(m=m, pmax=m - 2)))
    for s in O.SPACINGS:
        T.append((6, "regular", dict(spacing=s, ns=list(range(2, 13 if not big else 21)), pmax=pmax)))
    return T
