"""Smolyak derivatives and output combinations."""
import itertools

import numpy as np

from .. import oracle as O
from .. import smolyak_ref as S
from .c15 import near

from interpolation.smolyak import SmolyakInterp

PROPERTY = "C16"
RULE = (
    "every grid of C14's list: gradient of every polynomial of the basis (vector data together, scalar data "
    "one by one up to 40) at locations of the whole domain, the coefficient and data matrices checked on "
    "every unit vector of data, and all 15 non-empty combinations of requested outputs for scalar and vector "
    "data: number, order, shape and values; batches of coinciding coordinates written one after the other into the same array; nontrivial: polynomials with non-zero derivative"
)
ASSUMPTIONS = ["values are compared up to 1e-8 of the largest value"]


def one(rec, cases):
    for d, mu, lb, ub in cases:
        what = f"d={d} density {mu} bounds {lb}, {ub}"
        l, u = S.bounds(d, lb, ub)
        sg = S.build(d, mu, lb, ub)
        D = S.degrees(d, mu)
        n = len(D)
        G = np.asarray(sg.grid, float)
        P = S.locations(d, l, u, 12)
        BG, _ = S.basis(D, l, u, G)
        BP, GP = S.basis(D, l, u, P)
        if len(G) != n:
            rec.violate(f"{what}: {len(G)} points for {n} polynomials", key="count")
            return
        rec.states += n * d
        rec.nontrivial += sum(1 for g in D for e in g if e)
        gsc = np.abs(GP).max()
        si = SmolyakInterp(sg, BG)
        r = si.interpolate(P, interp=False, deriv=True)
        rec.transitions += 1
        rec.traces += 1
        rec.outcome(r)
        if not near(r, GP, gsc):
            rec.violate(f"{what}: gradient of vector data, shape {np.asarray(r).shape} expected {GP.shape}", key="vector-gradient")
            return
        for k in range(min(n, 40)):
            s1 = SmolyakInterp(sg, BG[:, k].copy())
            rec.transitions += 1
            r = s1.interpolate(P, deriv=True)
            if not isinstance(r, list) or len(r) != 2 or not near(r[0], BP[:, k]) or not near(r[1], GP[:, :, k], gsc):
                rec.violate(f"{what}: value and gradient of the polynomial of degrees {D[k]}", key="scalar-gradient")
                return
        # derivative with respect to the data: interpolants of the unit vectors
        unit = SmolyakInterp(sg, np.eye(n))
        U = np.asarray(unit.interpolate(P))
        theta = np.asarray(unit.theta)
        inv = np.linalg.solve(BG.T, BP.T).T
        for vec in (0, 1, 2):
            data = O.generic((n,) + ((vec,) if vec else ()), 3)
            s2 = SmolyakInterp(sg, data.copy())
            coef = np.linalg.solve(BG, data)
            expv = BP @ coef
            expg = np.tensordot(GP, coef, 1)
            csc = np.abs(coef).max()
            for flags in itertools.product((False, True), repeat=4):
                if not any(flags):
                    continue
                rec.transitions += 1
                rec.traces += 1
                rec.states += 1
                kw = dict(zip(("interp", "deriv", "deriv_th", "deriv_X"), flags))
                r = s2.interpolate(P.copy(), **kw)
                if sum(flags) == 1:
                    if isinstance(r, (list, tuple)):
                        rec.violate(f"{what}: a single output came wrapped ({kw})", key="wrapped")
                        return
                    r = [r]
                if len(r) != sum(flags):
                    rec.violate(f"{what}: {len(r)} outputs for {kw}", key="number")
                    return
                it = iter(r)
                if flags[0] and not near(next(it), expv, csc):
                    rec.violate(f"{what}: values wrong or misplaced for {kw} vector {vec}", key="order")
                    return
                if flags[1] and not near(next(it), expg, gsc * csc):
                    rec.violate(f"{what}: gradient wrong or misplaced for {kw} vector {vec}", key="order")
                    return
                if flags[2]:
                    th = np.asarray(next(it))
                    # linear in the coefficients: determined by the interpolants of all unit vectors of data
                    if th.shape != (len(P), n) or not near(th @ theta, inv, 1.0) or not near(th @ np.asarray(s2.theta), expv, csc):
                        rec.violate(f"{what}: matrix of derivatives with respect to the coefficients for {kw} vector {vec}", key="theta")
                        return
                if flags[3]:
                    X = np.asarray(next(it))
                    if not near(X, inv, 1.0) or not near(X @ data, expv, csc):
                        rec.violate(f"{what}: matrix of derivatives with respect to the data for {kw} vector {vec}", key="data")
                        return
        if not near(U, inv, 1.0):
            rec.violate(f"{what}: interpolants of unit vectors", key="unit")
            return
        # batches with coinciding coordinates, one after the other in the same array
        buf = {}
        for Q in S.structured(d, l, u):
            B = buf.setdefault(Q.shape, np.empty(Q.shape))
            B[...] = Q
            BQ, GQ = S.basis(D, l, u, Q)
            r = s2.interpolate(B, deriv=True, deriv_th=True, deriv_X=True)
            rec.transitions += 1
            rec.traces += 1
            rec.states += 1
            if not np.array_equal(B, Q) or not near(r[0], BQ @ coef, csc) or not near(r[1], np.tensordot(GQ, coef, 1), gsc * csc) or not near(np.asarray(r[3]) @ data, BQ @ coef, csc) or not near(np.asarray(r[2]) @ np.asarray(s2.theta), BQ @ coef, csc):
                rec.violate(f"{what}: outputs at the batch {Q.tolist()}", key="structured")
                return
            r = s2.interpolate(B, interp=False, deriv=True)
            if not near(r, np.tensordot(GQ, coef, 1), gsc * csc):
                rec.violate(f"{what}: gradient at the batch {Q.tolist()}", key="structured")
                return
        default = s2.interpolate(P)
        if isinstance(default, list) or not near(default, expv, csc):
            rec.violate(f"{what}: default output", key="default")
            return
    rec.sample(dict(d=d, mu=mu, polynomials=n, locations=len(P)))


def tasks(tier):
    g = S.grids(tier)
    return [(5, "one", dict(cases=g[i::24])) for i in range(24)]
