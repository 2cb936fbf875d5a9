"""Reference model of the Smolyak construction (from its definition)."""
import itertools

import numpy as np

from . import oracle as O


def levels(d, mu):
    """Level vectors: each at least 1 and at most 1 + mu_i, sum at most d + max mu."""
    mus = [mu] * d if isinstance(mu, int) else list(mu)
    M = max(mus)

    def rec(i, left):
        if i == d:
            yield ()
            return
        for l in range(1, mus[i] + 2):
            if l - 1 > left:
                break
            for rest in rec(i + 1, left - (l - 1)):
                yield (l,) + rest

    return list(rec(0, M))


def node_ids(l, L):
    """New nodes of level l, as numerators j of cos(pi j / 2^(L)) with 2^L the finest resolution."""
    if l == 1:
        return [2 ** (L - 1)]
    if l == 2:
        return [0, 2**L]
    step = 2 ** (L - (l - 1))
    return list(range(step, 2**L, 2 * step))


def points(d, mu):
    """Set of tuples of integer node ids, and the resolution L."""
    M = mu if isinstance(mu, int) else max(mu)
    L = max(M, 1)
    S = set()
    n = 0
    for lv in levels(d, mu):
        for p in itertools.product(*[node_ids(l, L) for l in lv]):
            S.add(p)
            n += 1
    assert n == len(S)
    return S, L


def degrees(d, mu):
    """Multi-degrees of the basis polynomials."""

    def new(l):
        if l == 1:
            return [0]
        if l == 2:
            return [1, 2]
        return list(range(2 ** (l - 2) + 1, 2 ** (l - 1) + 1))

    out = []
    for lv in levels(d, mu):
        out += list(itertools.product(*[new(l) for l in lv]))
    assert len(out) == len(set(out))
    return out


def identify(x, L):
    """Integer ids of points of the cube, or None where a coordinate is no Chebyshev extremum."""
    th = np.arccos(np.clip(x, -1, 1)) / np.pi * 2**L
    ids = np.round(th)
    ok = np.abs(np.cos(np.pi * ids / 2**L) - x) < 1e-9
    return ids.astype(int), ok


def cheb(x, n):
    """T_0..T_n and derivatives at x, from the recurrences T, T'."""
    T, D = [np.ones_like(x), x.copy()], [np.zeros_like(x), np.ones_like(x)]
    for k in range(2, n + 1):
        T.append(2 * x * T[-1] - T[-2])
        D.append(2 * T[k - 1] + 2 * x * D[-1] - D[-2])
    return T[: n + 1], D[: n + 1]


def basis(degs, lb, ub, P):
    """Values (points x polynomials) and gradients (points x d x polynomials) of Chebyshev products on the domain."""
    lb, ub = np.asarray(lb, float), np.asarray(ub, float)
    d = P.shape[1]
    X = (2 * P - lb - ub) / (ub - lb)
    n = max(max(g) for g in degs)
    TD = [cheb(X[:, i], n) for i in range(d)]
    V = np.empty((len(P), len(degs)))
    G = np.empty((len(P), d, len(degs)))
    for k, g in enumerate(degs):
        f = [TD[i][0][g[i]] for i in range(d)]
        V[:, k] = np.prod(f, axis=0)
        for j in range(d):
            h = list(f)
            h[j] = TD[j][1][g[j]] * 2 / (ub[j] - lb[j])
            G[:, j, k] = np.prod(h, axis=0)
    return V, G


def grids(tier):
    """(d, mu, lb, ub) explored by the Smolyak checks: isotropic, anisotropic, every kind of bounds."""
    big = tier == "thorough"
    out = []
    iso = [(2, m) for m in range(1, 6)] + [(3, m) for m in range(1, 5)] + [(4, m) for m in (1, 2, 3)] + [(5, 1), (5, 2), (6, 1), (6, 2), (8, 1)]
    iso += [(2, 6), (4, 4), (5, 3), (7, 2), (10, 1), (9, 1)]
    if big:
        iso += [(2, 7), (3, 5), (3, 6), (4, 5), (5, 4), (6, 3), (7, 3), (8, 2), (9, 2), (10, 2)]
    B = [(None, None), (-2.0, 3.0), (1, 4), ([0.5, -3.0, 10.0, 0.0, 2.0, 1.0, -1.0, 5.0, 0.0, 1.0], [1.0, 2.0, 12.5, 0.25, 7.0, 1.5, 0.0, 6.0, 9.0, 2.0])]
    for d, m in iso:
        for lb, ub in B if d <= 4 else B[2:]:
            out.append((d, m, lb if not isinstance(lb, list) else lb[:d], ub if not isinstance(ub, list) else ub[:d]))
    an = [t for t in itertools.product((1, 2, 3), repeat=2)] + [(1, 4), (4, 2), (5, 1), (2, 5)]
    an += [t for t in itertools.product((1, 2, 3), repeat=3)]
    an += [t for t in itertools.product((1, 2), repeat=4)] + [(3, 1, 1, 2), (1, 2, 3, 1), (2, 1, 1, 1, 3)]
    an += [t for t in itertools.product((1, 2, 3, 4), repeat=3) if max(t) == 4] + list(itertools.product((1, 2), repeat=5))
    if big:
        an += list(itertools.product((1, 2, 3, 4, 5), repeat=2)) + [t for t in itertools.product((1, 2, 3, 5), repeat=3) if max(t) == 5]
        an += list(itertools.product((1, 2, 3), repeat=4)) + list(itertools.product((1, 2), repeat=6)) + [t for t in itertools.product((1, 3), repeat=5)]
    for t in an:
        d = len(t)
        out.append((d, list(t), B[3][0][:d], B[3][1][:d]))
        if d == 2:
            out.append((d, list(t), None, None))
            out.append((d, list(t), 1, 2.5))
    # every pair of positions and scales
    for i, p in enumerate(O.INTERVALS):
        for j, q in enumerate(O.INTERVALS):
            out.append((2, [2, [1, 2], [3, 1]][(i + j) % 3], [p[0], q[0]], [p[1], q[1]]))
    for i in range(len(O.INTERVALS)):
        r = [O.INTERVALS[(i + k) % len(O.INTERVALS)] for k in range(3)]
        out.append((3, 2 if i % 2 else [1, 3, 2], [x[0] for x in r], [x[1] for x in r]))
    out.append((2, 2, 0.1, 0.7))
    out.append((3, 1, 1000.1, 1000.3))
    return out


def bounds(d, lb, ub):
    l = np.full(d, -1.0) if lb is None else np.full(d, float(lb)) if np.isscalar(lb) else np.array(lb, float)
    u = np.full(d, 1.0) if ub is None else np.full(d, float(ub)) if np.isscalar(ub) else np.array(ub, float)
    return l, u


def build(d, mu, lb, ub, arrays=True):
    from interpolation.smolyak import SmolyakGrid

    args = []
    for x in (lb, ub):
        args.append(np.array(x) if isinstance(x, list) and arrays else x)
    kw = {}
    if lb is not None:
        kw["lb"] = args[0]
    if ub is not None:
        kw["ub"] = args[1]
    return SmolyakGrid(d, mu, **kw)


def locations(d, lb, ub, N=25):
    """Fixed locations of the domain in general position, its corners (two) and centre."""
    u = np.mod(np.outer(np.arange(1, N + 1), np.sqrt([2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0, 23.0, 29.0][:d])), 1.0)
    u = np.vstack([u, np.zeros(d), np.ones(d), np.full(d, 0.5), np.eye(d)])
    return lb + (ub - lb) * u


def structured(d, lb, ub):
    """Batches in which coordinates coincide: every product of special coordinates as a batch of its own, and
    batches in which one dimension, or all but one, stays at a special coordinate."""
    lb, ub = np.asarray(lb, float) * np.ones(d), np.asarray(ub, float) * np.ones(d)
    special = (0.0, 0.5, 1.0, 0.3)
    P = locations(d, lb, ub, 6)
    if d <= 3:
        for t in itertools.product(special, repeat=d):
            yield (lb + (ub - lb) * np.array(t))[None, :]
    else:
        for t in special:
            yield (lb + (ub - lb) * t)[None, :]
    for i in range(d):
        for t in special:
            Q = P.copy()
            Q[:, i] = lb[i] + (ub[i] - lb[i]) * t
            yield Q
            Q = np.tile(lb + (ub - lb) * t, (len(P), 1))
            Q[:, i] = P[:, i]
            yield Q
    yield np.vstack([P[:1]] * 3)
    yield np.vstack([P[:2], P[:2]])
