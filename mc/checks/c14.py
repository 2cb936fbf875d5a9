"""Smolyak grids."""
import itertools

import numpy as np

from .. import smolyak_ref as S

from interpolation.smolyak import SmolyakGrid, build_grid, num_grid_points, smol_inds

PROPERTY = "C14"
RULE = (
    "every (dimension, isotropic or per-dimension density, bounds) of the bound: each grid point identified with "
    "a tuple of Chebyshev extrema and the set compared with the construction from its definition, each once, "
    "mapped affinely on the bounds; index list, point list, number of polynomials, count formula, maps both "
    "ways. Bounds: d=2..8, density to 5, all anisotropic densities in {1,2,3}^2, {1,2,3}^3, {1,2}^4 and some "
    "others; nontrivial: densities above 1"
)
ASSUMPTIONS = ["coordinates are compared up to 1e-9 of the width of the domain"]


def check_points(rec, what, cube, d, mu):
    want, L = S.points(d, mu)
    cube = np.asarray(cube)
    if cube.ndim != 2 or cube.shape != (len(want), d):
        rec.violate(f"{what}: {cube.shape} points, expected {(len(want), d)}", key="count")
        return False
    ids, ok = S.identify(cube, L)
    if not ok.all():
        rec.violate(f"{what}: {cube[~ok.all(axis=1)][0].tolist()} is not a tuple of Chebyshev extrema", key="extrema")
        return False
    got = [tuple(r) for r in ids.tolist()]
    if set(got) != want or len(set(got)) != len(got):
        rec.violate(f"{what}: missing {sorted(want - set(got))[:4]} extra {sorted(set(got) - want)[:4]}", key="set")
        return False
    return True


def one(rec, cases):
    for d, mu, lb, ub in cases:
        what = f"d={d} density {mu} bounds {lb}, {ub}"
        l, u = S.bounds(d, lb, ub)
        for arrays in (True, False):
            sg = S.build(d, mu if not isinstance(mu, list) or arrays else np.array(mu), lb, ub, arrays)
            rec.transitions += 1
            rec.traces += 1
            G = np.asarray(sg.grid, float)
            rec.states += len(G)
            rec.nontrivial += len(G) if (mu if isinstance(mu, int) else max(mu)) > 1 else 0
            rec.outcome(G)
            if not check_points(rec, what, (2 * G - l - u) / (u - l), d, mu):
                return
            if not check_points(rec, what + " (cube)", sg.cube_grid, d, mu):
                return
            n = len(G)
            if np.asarray(sg.B).shape != (n, n) or np.linalg.matrix_rank(sg.B) != n:
                rec.violate(f"{what}: basis matrix of shape {np.asarray(sg.B).shape} / rank {np.linalg.matrix_rank(sg.B)} for {n} points", key="square")
                return
            if np.abs(sg.cube2dom(sg.cube_grid) - G).max() > 1e-9 * np.abs(u - l).max():
                rec.violate(f"{what}: grid is not the image of the cube grid", key="image")
                return
            corners = np.array(list(itertools.product((-1.0, -0.3, 0.0, 0.7, 1.0), repeat=d))) if d < 4 else np.vstack([-np.ones(d), np.ones(d), 0.3 * np.eye(d)])
            dom = sg.cube2dom(corners)
            exp = l + (corners + 1) / 2 * (u - l)
            rec.transitions += 2
            if np.abs(dom - exp).max() > 1e-9 * (np.abs(l) + np.abs(u)).max() or np.abs(sg.dom2cube(dom) - corners).max() > 1e-9:
                rec.violate(f"{what}: maps between cube and domain", key="maps")
                return
            one_ = sg.cube2dom(corners[1])
            if np.abs(one_ - exp[1]).max() > 1e-9 * (np.abs(l) + np.abs(u)).max() or np.abs(sg.dom2cube(one_) - corners[1]).max() > 1e-9:
                rec.violate(f"{what}: map of one point", key="maps")
                return
            back = sg.dom2cube(exp + (u - l))
            if np.abs(sg.cube2dom(back) - exp - (u - l)).max() > 1e-9 * (1 + np.abs(exp).max()):
                rec.violate(f"{what}: maps are not inverse outside of the domain", key="maps")
                return
        m = mu if isinstance(mu, int) else np.array(mu)
        inds = [tuple(int(i) for i in t) for t in smol_inds(d, m)]
        if sorted(inds) != sorted(S.levels(d, mu)):
            rec.violate(f"{what}: level vectors {sorted(inds)[:6]}", key="levels")
            return
        if not check_points(rec, what + " build_grid", build_grid(d, m), d, mu):
            return
        if isinstance(mu, int) and mu <= 3 and num_grid_points(d, mu) != n:
            rec.violate(f"num_grid_points({d}, {mu}) = {num_grid_points(d, mu)}, grid has {n}", key="formula")
            return
    rec.sample(dict(d=d, mu=mu, points=n, bounds=[l.tolist(), u.tolist()]))


def formula(rec, dmax):
    for d in range(2, dmax):
        for mu in (1, 2, 3):
            rec.states += 1
            rec.nontrivial += mu > 1
            rec.transitions += 1
            rec.traces += 1
            n = 0
            # number of points by levels: product over dimensions of the number of new nodes
            new = {1: 1, 2: 2, 3: 2, 4: 4}
            poly = [1] + [0] * mu
            for _ in range(d):
                q = [0] * (mu + 1)
                for i, c in enumerate(poly):
                    for l in range(1, mu + 2 - i):
                        q[i + l - 1] += c * new[l]
                poly = q
            n = sum(poly)
            r = num_grid_points(d, mu)
            rec.outcome(float(r))
            if r != n:
                rec.violate(f"num_grid_points({d}, {mu}) = {r}, expected {n}", key="formula")
                return


def mixed_bounds(rec):
    """Lower and upper bound given in different ways."""
    for d in (2, 3):
        for lb in (None, 0, -0.5, [-3.0] * d, [0, -1, -2][:d]):
            for ub in (None, 2, 1.5, [4.0] * d, [2, 3, 5][:d]):
                for mu in (1, 2, [1, 2, 1][:d]):
                    l, u = S.bounds(d, lb, ub)
                    sg = S.build(d, mu, lb, ub, arrays=(d == 2))
                    rec.states += 1
                    rec.nontrivial += 1
                    rec.transitions += 1
                    rec.traces += 1
                    G = np.asarray(sg.grid, float)
                    rec.outcome(G)
                    if not check_points(rec, f"d={d} density {mu} bounds {lb}, {ub}", (2 * G - l - u) / (u - l), d, mu):
                        return


def refusals(rec):
    bad = [(1, 2, {}), (0, 1, {}), (2, 0, {}), (2, -1, {}), (2, [1, 2, 3], {}), (3, [1, 2], {}), (2, [0, 1], {}), (2, 2, dict(lb=[0.0], ub=[1.0])), (2, 2, dict(lb=[0.0, 0.0, 0.0])), (2, 2, dict(ub=[1.0, 1.0, 1.0]))]
    for d, mu, kw in bad:
        rec.states += 1
        rec.nontrivial += 1
        rec.transitions += 1
        rec.traces += 1
        try:
            SmolyakGrid(d, mu, **kw)
            rec.violate(f"SmolyakGrid({d}, {mu}, {kw}) was accepted", key="refusal")
            return
        except Exception:
            rec.outcome(repr((d, mu, kw)))


def tasks(tier):
    T = [(1, "formula", dict(dmax=40)), (2, "mixed_bounds", {}), (1, "refusals", {})]
    g = S.grids(tier)
    big = [x for x in g if x[0] * (x[1] if isinstance(x[1], int) else max(x[1])) >= 10]
    small = [x for x in g if x not in big]
    for i in range(len(big)):
        T.append((5, "one", dict(cases=[big[i]])))
    for i in range(8):
        T.append((4, "one", dict(cases=small[i::8])))
    return T
