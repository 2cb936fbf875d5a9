"""Complete polynomial bases."""
import itertools
from math import comb

import numpy as np

from interpolation.complete_poly import complete_polynomial, n_complete

PROPERTY = "C11"
RULE = (
    "every (number of variables, degree) of the bound; exponents of each row identified exactly from a prime "
    "observation, checked to be the complete set once each and in the same order on every other observation: "
    "all tuples over {-2,-1,-0.5,0,1,3} for up to 4 variables, all placements of two such coordinates for "
    "more, and coordinates of magnitudes 1e-50 to 1e50; vector and matrix input, 0..4097 observations, refilled arrays, all layouts and integer input. Bounds: 1..12 "
    "variables (basis), 1..60 (sizes), degree 0..5; nontrivial: degree at least 2"
)
ASSUMPTIONS = ["values are compared up to 1e-12 relative"]

PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
VALS = [-2.0, -1.0, -0.5, 0.0, 1.0, 3.0]


def monomials(nvar, d):
    out = set()
    for k in range(d + 1):
        for c in itertools.combinations_with_replacement(range(nvar), k):
            out.add(tuple(c.count(i) for i in range(nvar)))
    return out


def factor(v, nvar):
    v = int(round(v))
    e = []
    for p in PR[:nvar]:
        k = 0
        while v > 1 and v % p == 0:
            v //= p
            k += 1
        e.append(k)
    return tuple(e) if v == 1 else None


def exponents(rec, nvar, d):
    """Identify the monomial of every row, or report."""
    z = np.array(PR[:nvar], float)
    row = complete_polynomial(z.copy(), d)
    rec.transitions += 1
    M = monomials(nvar, d)
    E = [factor(v, nvar) if v >= 1 and v == int(v) else None for v in row]
    if row.shape != (len(M),) or n_complete(nvar, d) != len(M):
        rec.violate(f"{nvar} variables degree {d}: basis of shape {row.shape}, announced {n_complete(nvar, d)}, expected {len(M)}", key="size")
        return None
    if None in E or set(E) != M or len(set(E)) != len(E):
        rec.violate(f"{nvar} variables degree {d}: rows at the primes are {row.tolist()[:60]}; missing {sorted(M - set(E))[:5]}", key="monomials")
        return None
    head = [(0,) * nvar] + [tuple(int(i == j) for i in range(nvar)) for j in range(nvar)]
    if d >= 1 and E[: nvar + 1] != head:
        rec.violate(f"{nvar} variables degree {d}: basis does not start with the constant and the variables: {E[:nvar + 1]}", key="head")
        return None
    return E


def power(E, Z):
    """rows x observations"""
    E = np.array(E)
    return np.array([np.prod([Z[i] ** e[i] for i in range(Z.shape[0])], axis=0) for e in E]).reshape(len(E), Z.shape[1])


def observations(nvar):
    if nvar <= 4:
        return np.array(list(itertools.product(VALS, repeat=nvar))).T
    cols = []
    base = np.array([1.0 + 0.125 * i for i in range(nvar)])
    for i, j in itertools.combinations(range(nvar), 2):
        for a, b in itertools.product(VALS, repeat=2):
            c = base.copy()
            c[i], c[j] = a, b
            cols.append(c)
    return np.array(cols).T


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * (1 + np.abs(b))))


MAGS = [1e-50, -1e-30, 1e-13, -1e-9, 1e-5, -3e4, 2e8, 1e15, -1e40, 1e50]
NOBS = (0, 1, 2, 3, 8, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 1024, 1025, 4097)


def magnitudes(nvar):
    """Coordinates of every magnitude (no power up to the fifth leaves the range of floats)."""
    if nvar <= 2:
        return np.array(list(itertools.product(MAGS, repeat=nvar))).T
    cols = []
    for i, j in itertools.combinations(range(nvar), 2):
        for k, (a, b) in enumerate(itertools.product(MAGS, repeat=2)):
            c = np.array([MAGS[(k + q) % len(MAGS)] for q in range(nvar)])
            c[i], c[j] = a, b
            cols.append(c)
    return np.array(cols).T


def same(a, b):
    """Relative comparison, entry by entry."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * np.abs(b)))


def basis(rec, nvar, d):
    E = exponents(rec, nvar, d)
    if E is None:
        return
    Z = observations(nvar)
    want = power(E, Z)
    rec.states += Z.shape[1]
    rec.nontrivial += Z.shape[1] if d >= 2 else 0
    forms = [("C", np.ascontiguousarray(Z)), ("F", np.asfortranarray(Z)), ("strided", np.repeat(np.repeat(Z, 2, 0), 2, 1)[::2, ::2]), ("transposed", np.ascontiguousarray(Z.T).T)]
    for name, A in forms:
        B = complete_polynomial(A, d)
        rec.transitions += Z.shape[1]
        rec.traces += 1
        if not close(B, want):
            rec.violate(f"{nvar} variables degree {d}: matrix of observations stored {name}: rows are not the monomials in the same order", key="matrix")
            return
    rec.outcome(want)
    for k in range(0, Z.shape[1], max(1, Z.shape[1] // 150)):
        for v in (Z[:, k].copy(), Z[:, k], list(Z[:, k])):
            b = complete_polynomial(v, d)
            rec.transitions += 1
            if not close(b, want[:, k]):
                rec.violate(f"{nvar} variables degree {d}: observation {Z[:, k].tolist()} as a vector gives another column", key="vector")
                return
    for nobs in NOBS:
        S = Z[:, [k % Z.shape[1] for k in range(nobs)]] if nobs else np.zeros((nvar, 0))
        B = complete_polynomial(S, d)
        rec.traces += 1
        rec.transitions += 1
        if not close(B, power(E, S)):
            rec.violate(f"{nvar} variables degree {d}: wrong basis for {nobs} observations", key="nobs")
            return
    Z = magnitudes(nvar)
    want = power(E, Z)
    rec.states += Z.shape[1]
    rec.transitions += Z.shape[1]
    if not same(complete_polynomial(Z, d), want) or not all(same(complete_polynomial(Z[:, k].copy(), d), want[:, k]) for k in range(0, Z.shape[1], max(1, Z.shape[1] // 60))):
        rec.violate(f"{nvar} variables degree {d}: coordinates of extreme magnitude", key="magnitude")
        return
    # one array of observations filled again and again, a result of which is kept
    B, b, kept = np.empty((nvar, 6)), np.empty(nvar), []
    Z = observations(nvar)
    for k in range(5):
        B[...] = Z[:, [(7 * k + 11 * q) % Z.shape[1] for q in range(6)]]
        b[...] = B[:, 1]
        r, q = complete_polynomial(B, d), complete_polynomial(b, d)
        kept += [(r, r.copy()), (q, q.copy())]
        rec.transitions += 2
        if not close(r, power(E, B)) or not close(q, power(E, B)[:, 1]) or any(not np.array_equal(x, y) for x, y in kept):
            rec.violate(f"{nvar} variables degree {d}: refilled array of observations, or an earlier result changed", key="refilled")
            return
    I = np.array([[(i * 3 + k) % 7 - 3 for k in range(20)] for i in range(nvar)])
    for v, e in ((I, power(E, I.astype(float))), (I[:, 2], power(E, I.astype(float))[:, 2]), (I.tolist(), power(E, I.astype(float)))):
        if not close(complete_polynomial(v, d), e):
            rec.violate(f"{nvar} variables degree {d}: integer observations", key="integer")
            return
    rec.sample(dict(variables=nvar, degree=d, first_rows=[list(e) for e in E[:6]]))


def counts(rec, nmax):
    for n in range(1, nmax + 1):
        for d in range(6):
            rec.states += 1
            rec.nontrivial += d > 1
            rec.transitions += 1
            rec.traces += 1
            r = n_complete(n, d)
            rec.outcome(int(r))
            if r != comb(n + d, d):
                rec.violate(f"n_complete({n}, {d}) = {r}, expected {comb(n + d, d)}", key="count")
                return


def tasks(tier):
    T = [(1, "counts", dict(nmax=60 if tier == "quick" else 200))]
    for n in range(1, 9 if tier == "quick" else 13):
        for d in range(6):
            T.append((n + d, "basis", dict(nvar=n, d=d)))
    if tier == "quick":
        T += [(9, "basis", dict(nvar=n, d=d)) for n in (9, 10, 12) for d in (2, 3)]
    return T
