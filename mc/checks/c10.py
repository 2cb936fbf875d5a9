"""Enumeration order of cartesian grids."""
import itertools

import numpy as np

from .. import oracle as O

from interpolation.cartesian import cartesian, mlinspace
from interpolation.splines import CGrid, UCGrid, nodes

PROPERTY = "C10"
RULE = (
    "cartesian, mlinspace and nodes on every shape tuple of the bound, both orders and the default, lists / "
    "tuples / integer / strided arrays, one array in several places, uniform, nonuniform and mixed grids, bounds over small alphabets (shared by dimensions), array objects refilled with other nodes; expected rows by direct "
    "enumeration, compared exactly (cartesian, nodes of arrays) or up to rounding (regular grids, whose first "
    "and last node must be the bounds exactly). Bounds: sizes 1..40 (1 array), 1..7 (2), 1..5 (3), 1..4 (4), 1..2 (7, 8), some to 40000, "
    "1..3 (5, 6); nontrivial: at least two dimensions of different size"
)
ASSUMPTIONS = []


def rows(arrs, order):
    if order == "C":
        return [t for t in itertools.product(*arrs)]
    return [t[::-1] for t in itertools.product(*arrs[::-1])]


def expected(arrs, order):
    return np.array(rows([list(map(float, a)) for a in arrs], order), float).reshape(-1, len(arrs))


def ok(rec, what, obs, exp, tol=None):
    rec.transitions += 1
    rec.traces += 1
    obs = np.asarray(obs)
    rec.outcome(obs)
    good = obs.shape == exp.shape and (np.array_equal(obs, exp) if tol is None else np.all(np.abs(obs - exp) <= tol))
    if not good:
        rec.violate(f"{what}: got shape {obs.shape}, expected {exp.shape}; first rows {obs[:4].tolist()} expected {exp[:4].tolist()}", key=what.split()[0])
    return good


def arrays(shape):
    # decreasing, repeated order of magnitude, not sorted: order must come from position only
    return [np.array([((7 * k) % (n + 3)) * 0.5 + 10.0**i for k in range(n)]) for i, n in enumerate(shape)]


def cart(rec, d, ns):
    for shape in itertools.product(ns, repeat=d):
        A = arrays(shape)
        rec.states += 1
        rec.nontrivial += d > 1 and len(set(shape)) > 1
        C, F = expected(A, "C"), expected(A, "F")
        before = [a.copy() for a in A]
        if not (ok(rec, f"cartesian {shape} default", cartesian(A), C) and ok(rec, f"cartesian {shape} C", cartesian(A, order="C"), C) and ok(rec, f"cartesian {shape} F", cartesian(A, order="F"), F)):
            return
        variants = [[list(a) for a in A], tuple(A), [np.repeat(a, 2)[::2] for a in A], [a[::-1].copy()[::-1] for a in A]]
        for v in variants:
            if not (ok(rec, f"cartesian {shape} stored otherwise", cartesian(v), C) and ok(rec, f"cartesian {shape} stored otherwise F", cartesian(v, "F"), F)):
                return
        # one array object in two or all places of the list, and overlapping views of one array
        shared = [[A[i] if k == j else a for k, a in enumerate(A)] for i in range(d) for j in range(d) if i != j] + ([[A[0]] * d] if d > 2 else [])
        long = np.arange(float(max(shape) + d)) ** 1.5
        shared.append([long[i : i + n] for i, n in enumerate(shape)])
        for v in shared if max(shape) < 8 else []:
            if not (ok(rec, f"cartesian {shape} arrays shared", cartesian(v), expected(v, "C")) and ok(rec, f"cartesian {shape} arrays shared F", cartesian(v, order="F"), expected(v, "F"))):
                return
        I = [np.arange(n) * (i + 1) for i, n in enumerate(shape)]
        if not (ok(rec, f"cartesian {shape} integers", cartesian(I), expected(I, "C")) and ok(rec, f"cartesian {shape} integers F", cartesian(I, order="F"), expected(I, "F"))):
            return
        if any(not np.array_equal(a, b) for a, b in zip(A, before)):
            rec.violate("cartesian modified its arguments", key="mutation")
            return
        # values on the list reshape, in the same order, to an array indexed by node numbers
        f = lambda X: X @ np.array([1.0, 100.0, 1e4, 1e6, 1e8, 1e10, 3.0, 7.0][:d])
        for order in "CF":
            T = f(cartesian(A, order=order)).reshape(shape, order=order)
            E = f(np.stack(np.meshgrid(*A, indexing="ij"), -1).reshape(-1, d)).reshape(shape)
            if not ok(rec, f"reshape {shape} {order}", T, E, 1e-6 * np.abs(E).max()):
                return
    rec.sample(dict(shape=list(shape), rows=len(C)))


def regular(rec, d, ns, ivs):
    for shape in itertools.product(ns, repeat=d):
        for s in range(ivs):
            iv = [O.INTERVALS[(i * 2 + s) % 9] for i in range(d)]
            a, b = [x[0] for x in iv], [x[1] for x in iv]
            L = [np.array([x[0] + (x[1] - x[0]) * k / max(1, n - 1) for k in range(n)]) for x, n in zip(iv, shape)]
            for l, x in zip(L, iv):
                if len(l) > 1:
                    l[-1] = x[1]
            rec.states += 1
            rec.nontrivial += d > 1 and len(set(shape)) > 1
            tol = 1e-12 * np.array([abs(x[0]) + abs(x[1]) for x in iv])
            for order in ("C", "F"):
                E = expected(L, order)
                for args in ((a, b, list(shape)), (np.array(a), np.array(b), np.array(shape)), (tuple(a), tuple(b), tuple(shape))):
                    G = mlinspace(*args, order=order)
                    if not ok(rec, f"mlinspace {shape} {iv} {order}", G, E, tol):
                        return
                    for i in range(d):
                        if G[:, i].min() != a[i] or (shape[i] > 1 and G[:, i].max() != b[i]):
                            rec.violate(f"mlinspace {shape} {iv}: bounds not contained exactly", key="bounds")
                            return
            if not ok(rec, f"mlinspace {shape} default", mlinspace(a, b, shape), expected(L, "C"), tol):
                return
    rec.sample(dict(regular=list(shape), a=a, b=b))


def coincide(rec, d, ns):
    """Bounds over a small alphabet, so that dimensions share bounds, widths or nothing; arguments in arrays
    that are filled again and again."""
    ab = [(0.0, 1.0), (0.0, 2.0), (-1.0, 1.0)] if d < 4 else [(0.0, 1.0), (-1.0, 1.0)]
    A, B, N = np.empty(d), np.empty(d), np.empty(d, int)
    for iv in itertools.product(ab, repeat=d):
        for shape in itertools.product(ns, repeat=d):
            A[:], B[:], N[:] = [x[0] for x in iv], [x[1] for x in iv], shape
            L = [np.array([x[0] + (x[1] - x[0]) * k / max(1, n - 1) for k in range(n)]) for x, n in zip(iv, shape)]
            rec.states += 1
            rec.nontrivial += 1
            for order in ("C", "F"):
                if not ok(rec, f"mlinspace {shape} {iv} {order}", mlinspace(A, B, N, order=order), expected(L, order), 1e-12):
                    return
            if min(shape) > 1:
                g = tuple((x[0], x[1], int(n)) for x, n in zip(iv, shape))
                for G in (g, UCGrid(*g), CGrid(*g)):
                    if not ok(rec, f"nodes {g}", nodes(G), expected(L, "C"), 1e-12):
                        return
    rec.sample(dict(bounds=[list(x) for x in iv], shape=list(shape)))


def refilled(rec, d, ns):
    """The same array objects (and list and grid objects made of them) holding other nodes."""
    for shape in itertools.product(ns, repeat=d):
        arrs = [np.empty(n) for n in shape]
        base = [np.array(a) for a in arrays(shape)]
        grids = []
        for k in range(4):
            for i, a in enumerate(arrs):
                a[...] = np.sort(base[i]) + [0.0, 0.5, 0.5 * i, -7.0][k]
            rec.states += 1
            rec.nontrivial += 1
            if not (ok(rec, f"cartesian {shape} refilled", cartesian(arrs), expected(arrs, "C")) and ok(rec, f"cartesian {shape} refilled F", cartesian(arrs, order="F"), expected(arrs, "F"))):
                return
            if min(shape) > 1:
                grids = grids or [tuple(arrs), CGrid(*arrs), CGrid(*arrs[:-1], (0.0, 1.0, 3))]
                for g in grids[:2]:
                    if not ok(rec, f"nodes {shape} refilled", nodes(g), expected(arrs, "C")):
                        return
                if not ok(rec, f"nodes {shape} refilled, mixed", nodes(grids[2]), expected(arrs[:-1] + [np.array([0.0, 0.5, 1.0])], "C")):
                    return
    rec.sample(dict(refilled=list(shape)))


def nodelist(rec, types, ns):
    d = len(types)
    for shape in itertools.product(ns, repeat=d):
        for s in range(3):
            iv = [O.INTERVALS[(i * 2 + s) % 9] for i in range(d)]
            g, L = [], []
            for t, x, n, k in zip(types, iv, shape, itertools.cycle(O.SPACINGS)):
                if t == "u":
                    g.append((float(x[0]), float(x[1]), int(n)))
                    l = np.array([x[0] + (x[1] - x[0]) * q / (n - 1) for q in range(n)])
                    l[-1] = x[1]
                else:
                    l = O.knots(k, n, *x)
                    g.append(l.copy())
                L.append(l)
            grid = CGrid(*g)
            grids = [tuple(g), grid] + ([UCGrid(*g)] if set(types) == {"u"} else [])
            tol = 1e-12 * np.array([abs(x[0]) + abs(x[1]) for x in iv])
            rec.states += 1
            rec.nontrivial += d > 1 and len(set(shape)) > 1
            for G in grids:
                if not ok(rec, f"nodes {types} {shape}", nodes(G), expected(L, "C"), tol):
                    return
    rec.sample(dict(nodes=types, shape=list(shape)))


def tasks(tier):
    T = []
    big = tier == "thorough"
    rng = {1: range(1, 41), 2: range(1, 8), 3: range(1, 6), 4: range(1, 5), 5: range(1, 4), 6: range(1, 3)}
    if big:
        rng = {1: range(1, 400), 2: range(1, 20), 3: range(1, 8), 4: range(1, 6), 5: range(1, 5), 6: range(1, 4), 7: range(1, 3)}
    for d, r in rng.items():
        if d < 7 or big:
            if d < 7:
                T.append((d, "cart", dict(d=d, ns=list(r))))
            if d < 6:
                T.append((d, "regular", dict(d=d, ns=list(r), ivs=9 if d < 3 else 2)))
    for d in (7, 8):
        T.append((9, "cart", dict(d=d, ns=[1, 2] + ([3] if big and d == 7 else []))))
        T.append((9, "regular", dict(d=d, ns=[1, 2], ivs=1)))
    T.append((2, "regular", dict(d=6, ns=[1, 2], ivs=2)))
    T.append((2, "cart", dict(d=2, ns=[1, 16, 33, 64, 100])))
    T.append((2, "cart", dict(d=2, ns=[3, 256, 257])))
    T.append((2, "cart", dict(d=3, ns=[2, 45])))
    T.append((2, "cart", dict(d=1, ns=[1000, 1025, 4097, 40000])))
    T.append((2, "regular", dict(d=2, ns=[1, 16, 33, 64, 100], ivs=2)))
    T.append((2, "regular", dict(d=1, ns=[64, 65, 100, 129, 1000, 1001, 4096], ivs=9)))
    for d, r in ((2, range(1, 6)), (3, range(1, 4 + big)), (4, (1, 2, 3))):
        T.append((5, "coincide", dict(d=d, ns=list(r))))
    for d, r in ((1, range(1, 9)), (2, range(1, 5)), (3, range(1, 4)), (4, (1, 2))):
        T.append((5, "refilled", dict(d=d, ns=list(r))))
    for d in (1, 2, 3, 4):
        for t in itertools.product("un", repeat=d):
            T.append((1, "nodelist", dict(types="".join(t), ns=list(range(2, {1: 40, 2: 7, 3: 5, 4: 4}[d])))))
    return T
