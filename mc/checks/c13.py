"""Complete polynomial fits: reproduction and damping histories."""
import itertools

import numpy as np

from .. import oracle as O
from .c11 import monomials

from interpolation.complete_poly import CompletePolynomial

PROPERTY = "C13"
RULE = (
    "every monomial of degree at most d as fitted function (scalar data one by one, vector data all "
    "together), values and every partial derivative at locations inside and outside the fitted region; every "
    "sequence of fits (three data sets x damping 0, 0.25, 0.5, 0.75, 1; other points in the same array; locations in a refilled array; every ordered pair of 16 factors from 1e-8 to 1), evaluations and derivatives up to the depth, "
    "points of every combination of scales from 1e-3 to 100; against the model combining polynomials as documented. Bounds: 1..4 variables, degree 0..5 (3 for 4 "
    "variables), histories of length 4; nontrivial: damped or non-constant"
)
ASSUMPTIONS = ["values are compared up to 1e-7 of the largest value (least squares on well-conditioned points)"]


def points(n, N, salt=0):
    u = np.mod(np.outer(np.arange(1, N + 1) + 0.17 * salt, np.sqrt([2.0, 3.0, 5.0, 7.0][:n])), 1.0)
    return 2 * u - 1


def mono(e, S):
    return np.prod([S[:, i] ** e[i] for i in range(S.shape[1])], axis=0)


def dmono(e, S, j):
    if e[j] == 0:
        return np.zeros(len(S))
    f = tuple(k - (i == j) for i, k in enumerate(e))
    return e[j] * mono(f, S)


def near(a, b, scale=1.0, eps=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= eps * (scale + np.abs(b).max() if b.size else scale)))


def reproduce(rec, n, d):
    M = sorted(monomials(n, d))
    N = 3 * len(M) + 5
    S = points(n, N)
    Q = np.vstack([1.1 * points(n, 9, 3), np.zeros((1, n)), np.eye(n)])
    X = np.stack([mono(e, S) for e in M], 1)
    F = np.stack([mono(e, Q) for e in M], 1)
    p = CompletePolynomial(n, d)
    for order in ("C", "F"):
        s = np.array(S, order=order)
        p.fit_values(s, X)
        rec.states += len(M)
        rec.nontrivial += len(M) - 1
        rec.transitions += 1
        rec.traces += 1
        r = p(Q)
        rec.outcome(r)
        if not near(r, F):
            rec.violate(f"{n} variables degree {d}: vector fit does not reproduce the monomials", key="vector")
            return
        one = p(Q[2])
        if not near(one, F[2]):
            rec.violate(f"{n} variables degree {d}: evaluation at one location gives {one}", key="one")
            return
        for j in range(n):
            G = np.stack([dmono(e, Q, j) for e in M], 1)
            rec.transitions += 1
            if not near(p.der(Q, j), G, 1.0) or not near(p.der(Q[2], j), G[2], 1.0):
                rec.violate(f"{n} variables degree {d}: derivative {j} of a vector fit", key="vector-der")
                return
            if not near(p(Q), F):
                rec.violate("evaluation changed after a derivative", key="pure")
                return
    for k, e in enumerate(M):
        q = CompletePolynomial(n, d)
        q.fit_values(S, X[:, k])
        rec.transitions += 1
        if not near(q(Q), F[:, k]):
            rec.violate(f"{n} variables degree {d}: monomial {e} not reproduced (scalar data): {q(Q)}", key="scalar")
            return
        for j in range(n):
            rec.transitions += 1
            if not near(q.der(Q, j), dmono(e, Q, j)):
                rec.violate(f"{n} variables degree {d}: derivative {j} of monomial {e}", key="scalar-der")
                return
    rec.sample(dict(variables=n, degree=d, monomials=len(M), fit_points=N))


SCALES = [1e-3, 0.01, 0.1, 1.0, 10.0, 100.0]


def scales(rec, n, d, first):
    """Points of every scale, variables of different scale, as few and as many points as one likes."""
    M = sorted(monomials(n, d))
    for sc in itertools.product(SCALES[first : first + 1], *[SCALES] * (n - 1)):
        sc = np.array(sc)
        if (max(1.0, sc.max()) / min(1.0, sc.min())) ** d > (1.0001e8 if n < 3 else 1.0001e6):
            continue  # not decided by double precision
        for N in (2 * len(M) + 3, 500):
            U = points(n, N)
            Q = points(n, 12, 3)
            X = np.stack([mono(e, U) for e in M], 1)
            F = np.stack([mono(e, Q) for e in M], 1)
            for data, exp in [(X, F)] + [(X[:, k].copy(), F[:, k]) for k in range(0, len(M), max(1, len(M) // 8))] + [(1e6 * X, 1e6 * F)]:
                p = CompletePolynomial(n, d)
                p.fit_values(U * sc, data)
                rec.states += 1
                rec.nontrivial += 1
                rec.traces += 1
                rec.transitions += 2
                r = p(Q * sc)
                rec.outcome(np.round(r, 5))
                if not near(r, exp, np.abs(exp).max(), 1e-6):
                    rec.violate(f"{n} variables degree {d}, {N} points of scale {sc.tolist()}: fit does not reproduce its polynomials, error {np.abs(r - exp).max() if r.shape == exp.shape else r.shape}", key="scale")
                    return
                for j in range(n if data.ndim > 1 else 0):
                    G = np.stack([dmono(e, Q, j) for e in M], 1) / sc[j] * (np.abs(exp).max() / np.abs(F).max())
                    if not near(p.der(Q * sc, j), G, np.abs(G).max() + 1e-3, 1e-4):
                        rec.violate(f"{n} variables degree {d}, {N} points of scale {sc.tolist()}: derivative {j}", key="scale-der")
                        return
    rec.sample(dict(variables=n, degree=d, scale=sc.tolist()))


OPS = ["fit0", "fit1", "fit0/.25", "fit1/.25", "fit1/.5", "fit0/1", "fit2", "fit2/.75", "reuse", "eval", "der", "other", "buffer"]


def histories(rec, n, d, vec, depth, first):
    M = sorted(monomials(n, d))
    N = 2 * len(M) + 3
    S = [points(n, N, 1), points(n, N + 4, 2), points(n, N, 6)]
    Q = 1.2 * points(n, 5, 5)
    shape = (len(M),) + ((2,) if vec else ())
    true = [O.generic(shape, 1), O.generic(shape, 2), O.generic(shape, 3)]
    X = [np.tensordot(np.stack([mono(e, s) for e in M], 1), t, 1) for s, t in zip(S, true)]
    BQ = np.stack([mono(e, Q) for e in M], 1)
    DQ = [np.stack([dmono(e, Q, j) for e in M], 1) for j in range(n)]
    for L in range(1, depth + 1):
        for h in itertools.product(OPS, repeat=L):
            if h[0] != first:
                continue
            p, o = CompletePolynomial(n, d), CompletePolynomial(n, d)
            p.fit_values(S[0], X[0])
            model = true[0].copy()
            o.fit_values(S[1], X[1])
            omodel = true[1].copy()
            kept = []
            B, turn = np.empty_like(Q), 0
            rec.states += 1
            rec.nontrivial += any("/" in q for q in h)
            rec.traces += 1
            for op in h + ("buffer", "eval", "der", "final"):
                rec.transitions += 1
                if op.startswith("fit"):
                    k = int(op[3])
                    damp = float(op[5:]) if "/" in op else 0.0
                    x = X[k].copy()
                    if "/" in op:
                        p.fit_values(S[k], x, damp=damp)
                    else:
                        p.fit_values(S[k], x)
                    model = (1 - damp) * true[k] + damp * model
                    if not np.array_equal(x, X[k]):
                        rec.violate("fit modified its data", key="data")
                        return
                elif op == "reuse":  # the arrays of an earlier fit, holding other points and data
                    buf = (S[0].copy(), X[0].copy())
                    p.fit_values(*buf)
                    buf[0][...], buf[1][...] = S[2], X[2]
                    p.fit_values(*buf)
                    model = true[2].copy()
                elif op == "buffer":  # one array of locations, filled with others for every call
                    for what in ("call", 0, n - 1, "call"):
                        turn += 1
                        B[...] = np.roll(Q, turn, axis=0)
                        r = p(B) if what == "call" else p.der(B, what)
                        kept.append((r, r.copy()))
                        W = np.roll(BQ if what == "call" else DQ[what], turn, axis=0)
                        if not near(r, np.tensordot(W, model, 1)):
                            rec.violate(f"{n} variables degree {d} vector={vec} after {h}: {what} at a refilled array of locations", key="buffer", history=list(h))
                            return
                        # the same array, asked for the same again with other numbers
                        B[...] = np.roll(Q, turn + 2, axis=0)
                        r = p(B) if what == "call" else p.der(B, what)
                        W = np.roll(BQ if what == "call" else DQ[what], turn + 2, axis=0)
                        if not near(r, np.tensordot(W, model, 1)):
                            rec.violate(f"{n} variables degree {d} vector={vec} after {h}: {what} at a refilled array of locations", key="buffer", history=list(h))
                            return
                elif op == "other":
                    o.fit_values(S[0], X[0], damp=0.5)
                    omodel = 0.5 * true[0] + 0.5 * omodel
                elif op == "eval":
                    r = p(Q)
                    kept.append((r, r.copy()))
                    if not near(r, np.tensordot(BQ, model, 1)):
                        rec.violate(f"{n} variables degree {d} vector={vec} after {h}: values are not those of the documented combination", key="damp", history=list(h))
                        return
                elif op == "der":
                    for j in range(n):
                        r = p.der(Q, j)
                        kept.append((r, r.copy()))
                        if not near(r, np.tensordot(DQ[j], model, 1)):
                            rec.violate(f"{n} variables degree {d} vector={vec} after {h}: derivative {j}", key="damp-der", history=list(h))
                            return
                else:
                    if not near(o(Q), np.tensordot(BQ, omodel, 1)):
                        rec.violate(f"after {h}: another object changed", key="other")
                        return
                    rec.outcome(np.round(p(Q), 6))
            if any(not np.array_equal(a, b) for a, b in kept):
                rec.violate(f"after {h}: a result returned earlier changed", key="kept")
                return
    rec.sample(dict(variables=n, degree=d, history=list(h)))


DAMPS = [1e-8, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.9, 0.99, 0.999, 1 - 1e-6, 1, 0, True, np.float64(0.25), np.float32(0.5)]


def damps(rec, n, d, cols):
    """Every ordered pair of damping factors, small and close to one included, applied to polynomials of
    very different size, so that the part of each shows."""
    M = sorted(monomials(n, d))
    N = 2 * len(M) + 3
    S = [points(n, N, 1), points(n, len(M), 2) if len(M) < 5 else points(n, N + 4, 2), points(n, 300, 6)]
    Q = 1.2 * points(n, 5, 5)
    shape = (len(M),) + ((cols,) if cols else ())
    true = [O.generic(shape, 1), O.generic(shape, 2), O.generic(shape, 3)]
    X = [np.tensordot(np.stack([mono(e, s) for e in M], 1), t, 1) for s, t in zip(S, true)]
    BQ = np.stack([mono(e, Q) for e in M], 1)
    for a in DAMPS:
        for b in DAMPS:
            for size in (1.0, 1e5):
                p = CompletePolynomial(n, d)
                p.fit_values(S[0], size * X[0])
                p.fit_values(S[1], X[1], a)
                p.fit_values(S[2], X[2], damp=b)
                m1 = (1 - float(a)) * true[1] + float(a) * size * true[0]
                model = (1 - float(b)) * true[2] + float(b) * m1
                exp = np.tensordot(BQ, model, 1)
                rec.states += 1
                rec.nontrivial += 1
                rec.traces += 1
                rec.transitions += 4
                r = p(Q)
                rec.outcome(np.round(r, 6))
                # rounding of the fits themselves is relative to what was fitted
                tol = 1e-9 * (1 + float(b) * float(a) * size)
                if np.shape(r) != exp.shape or not np.all(np.abs(r - exp) <= tol * (1 + np.abs(exp))):
                    rec.violate(f"{n} variables degree {d} columns {cols}: damping {a} then {b}: {r} expected {exp}", key="factors", history=[a, b])
                    return
    rec.sample(dict(variables=n, degree=d, columns=cols, factors=len(DAMPS)))


def tasks(tier):
    T = []
    for n, d, cols in ((1, 1, 0), (2, 2, 0), (1, 3, 2), (2, 1, 5)):
        T.append((4, "damps", dict(n=n, d=d, cols=cols)))
    big = tier == "thorough"
    for n, D in ((1, 5), (2, 5), (3, 3)):
        for d in range(1, D + 1):
            for f in range(len(SCALES)):
                T.append((3, "scales", dict(n=n, d=d, first=f)))
    for n, D in ((1, 5), (2, 5), (3, 5), (4, 3)):
        for d in range(D + 1):
            T.append((n * d, "reproduce", dict(n=n, d=d)))
    for f in OPS:
        for n, d, vec in ((2, 2, 0), (1, 3, 1), (2, 1, 1)) + (((3, 2, 0),) if big else ()):
            T.append((5, "histories", dict(n=n, d=d, vec=vec, depth=5 if big else 4 if (n, d) == (2, 2) else 3, first=f)))
    return T
