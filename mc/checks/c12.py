"""Derivatives of complete polynomial bases."""
import numpy as np

from .c11 import NOBS, close, exponents, magnitudes, observations, same

from interpolation.complete_poly import complete_polynomial, complete_polynomial_der

PROPERTY = "C12"
RULE = (
    "every (number of variables, degree, variable of differentiation) of the bound at every observation of "
    "C11's alphabet (zeros, negative and extreme coordinates included), vector and matrix input, refilled arrays, all layouts; expected "
    "row = derivative of the monomial identified for that row; all out-of-range variables and degrees refused. "
    "Bounds: 1..8 variables (9, 10, 12 for degrees 2, 3), degree 0..5; nontrivial: degree at least 2"
)
ASSUMPTIONS = ["values are compared up to 1e-12 relative"]


def dpower(E, Z, j):
    out = []
    for e in E:
        if e[j] == 0:
            out.append(np.zeros(Z.shape[1]))
        else:
            r = np.full(Z.shape[1], float(e[j]))
            for i in range(Z.shape[0]):
                r = r * Z[i] ** (e[i] - (i == j))
            out.append(r)
    return np.array(out).reshape(len(E), Z.shape[1])


def der(rec, nvar, d):
    E = exponents(rec, nvar, d)
    if E is None:
        return
    Z = observations(nvar)
    for j in range(nvar):
        want = dpower(E, Z, j)
        rec.states += Z.shape[1]
        rec.nontrivial += Z.shape[1] if d > 1 else 0
        rec.outcome(want)
        forms = [("C", np.ascontiguousarray(Z)), ("F", np.asfortranarray(Z)), ("strided", np.repeat(np.repeat(Z, 2, 0), 2, 1)[::2, ::2])]
        for name, A in forms:
            rec.transitions += Z.shape[1]
            rec.traces += 1
            r = complete_polynomial_der(A, d, j)
            if not close(r, want):
                bad = np.argwhere(~(np.abs(r - want) <= 1e-12 * (1 + np.abs(want))))[0] if r.shape == want.shape else r.shape
                rec.violate(f"{nvar} variables degree {d} derivative {j} ({name}): row {bad[0] if len(bad) == 2 else bad} (exponents {E[bad[0]] if len(bad) == 2 else ''}) at {Z[:, bad[1]].tolist() if r.shape == want.shape else ''}", key="matrix")
                return
        for k in range(0, Z.shape[1], max(1, Z.shape[1] // 150)):
            for v in (Z[:, k].copy(), Z[:, k], list(Z[:, k])):
                rec.transitions += 1
                if not close(complete_polynomial_der(v, d, j), want[:, k]):
                    rec.violate(f"{nvar} variables degree {d} derivative {j}: observation {Z[:, k].tolist()} as a vector", key="vector")
                    return
        for nobs in NOBS:
            S = Z[:, [(5 * k) % Z.shape[1] for k in range(nobs)]] if nobs else np.zeros((nvar, 0))
            rec.transitions += 1
            if not close(complete_polynomial_der(S, d, j), dpower(E, S, j)):
                rec.violate(f"{nvar} variables degree {d} derivative {j}: {nobs} observations", key="nobs")
                return
        Y = magnitudes(nvar)
        want = dpower(E, Y, j)
        rec.states += Y.shape[1]
        rec.transitions += Y.shape[1]
        if not same(complete_polynomial_der(Y, d, j), want) or not all(same(complete_polynomial_der(Y[:, k].copy(), d, j), want[:, k]) for k in range(0, Y.shape[1], max(1, Y.shape[1] // 60))):
            rec.violate(f"{nvar} variables degree {d} derivative {j}: coordinates of extreme magnitude", key="magnitude")
            return
        # one array of observations filled again and again, results of which are kept
        B, b, kept = np.empty((nvar, 6)), np.empty(nvar), []
        for k in range(5):
            B[...] = Z[:, [(7 * k + 11 * q) % Z.shape[1] for q in range(6)]]
            b[...] = B[:, 1]
            r, q = complete_polynomial_der(B, d, j), complete_polynomial_der(b, d, j)
            kept += [(r, r.copy()), (q, q.copy())]
            rec.transitions += 2
            if not close(r, dpower(E, B, j)) or not close(q, dpower(E, B, j)[:, 1]) or any(not np.array_equal(x, y) for x, y in kept):
                rec.violate(f"{nvar} variables degree {d} derivative {j}: refilled array of observations, or an earlier result changed", key="refilled")
                return
        I = np.array([[(i * 3 + k) % 7 - 3 for k in range(20)] for i in range(nvar)])
        e = dpower(E, I.astype(float), j)
        if not (close(complete_polynomial_der(I, d, j), e) and close(complete_polynomial_der(I[:, 4], d, j), e[:, 4])):
            rec.violate(f"{nvar} variables degree {d} derivative {j}: integer observations", key="integer")
            return
    rec.sample(dict(variables=nvar, degree=d, observations=int(Z.shape[1])))


def refusals(rec):
    for nvar in range(1, 5):
        for z in (np.ones(nvar), np.ones((nvar, 3))):
            for d in range(-3, 9):
                for j in [None] + list(range(-3, nvar + 4)):
                    legal = 0 <= d <= 5 and (j is None or 0 <= j < nvar)
                    rec.states += 1
                    rec.nontrivial += not legal
                    rec.transitions += 1
                    rec.traces += 1
                    try:
                        if j is None:
                            complete_polynomial(z, d)
                        else:
                            complete_polynomial_der(z, d, j)
                        accepted = True
                    except Exception:
                        accepted = False
                    rec.outcome((accepted, legal))
                    if accepted != legal:
                        rec.violate(f"{nvar} variables, degree {d}, variable {j}, input of dimension {z.ndim}: {'accepted' if accepted else 'refused'}", key="refusal")
                        return


def tasks(tier):
    T = [(1, "refusals", {})]
    for n in range(1, 9 if tier == "quick" else 11):
        for d in range(6):
            T.append((n + d, "der", dict(nvar=n, d=d)))
    if tier == "quick":
        T += [(9, "der", dict(nvar=n, d=d)) for n in (9, 10, 12) for d in (2, 3)]
    return T
