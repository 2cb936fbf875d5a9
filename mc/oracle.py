"""Reference models, written from the definitions and sharing no code with the library.

The one-dimensional models return weight matrices W (locations x nodes): the interpolant at location l
is sum_n W[l, n] * v[n].  On a cartesian product of grids the model is the tensor product, so the
expected values at *all* combinations of one-dimensional locations are one multilinear product.
"""

import functools
import itertools

import numpy as np

EPS = 1e-9  # relative slack granted to floating point evaluation


# ---------------------------------------------------------------- one-dimensional weights
def lin_weights(nodes, xs, mode="linear", der=0, side=0):
    """Piecewise linear.  der: derivative order.  side: cell used for the derivative at an interior
    node (0: the one on the left, 1: on the right)."""
    nodes = np.asarray(nodes, float)
    n = len(nodes)
    W = np.zeros((len(xs), n))
    for r, x in enumerate(xs):
        if mode == "constant" and (x < nodes[0] or x > nodes[-1]):
            continue
        if mode == "nearest":
            x = min(max(x, nodes[0]), nodes[-1])
        i = 0
        while i < n - 2 and x > nodes[i + 1]:
            i += 1
        h = nodes[i + 1] - nodes[i]
        t = (x - nodes[i]) / h
        if der and abs(t - round(t)) < 1e-7 and 0 <= round(t) <= 1:
            j = i + int(round(t))  # location (nearly) on node j
            i = min(max(j - 1 + side, 0), n - 2)
            h = nodes[i + 1] - nodes[i]
            t = (x - nodes[i]) / h
        if der == 0:
            W[r, i], W[r, i + 1] = 1.0 - t, t
        elif der == 1:
            W[r, i], W[r, i + 1] = -1.0 / h, 1.0 / h
    return W


@functools.lru_cache(maxsize=None)
def natural_moments(n):
    """S (n x n): second derivatives at the nodes (unit spacing) of the natural cubic spline."""
    S = np.zeros((n, n))
    if n > 2:
        A = np.zeros((n - 2, n - 2))
        B = np.zeros((n - 2, n))
        for r in range(n - 2):
            A[r, r] = 4.0
            if r > 0:
                A[r, r - 1] = 1.0
            if r < n - 3:
                A[r, r + 1] = 1.0
            B[r, r], B[r, r + 1], B[r, r + 2] = 6.0, -12.0, 6.0
        S[1:-1] = np.linalg.solve(A, B)
    return S


def _cub_row(n, u, der):
    """Weights in units of the grid step, u inside [0, n-1]."""
    S = natural_moments(n)
    i = min(max(int(np.floor(u)), 0), n - 2)
    t = u - i
    row = np.zeros(n)
    if der == 0:
        row[i] += 1.0 - t
        row[i + 1] += t
        row += ((1 - t) ** 3 - (1 - t)) / 6.0 * S[i] + (t**3 - t) / 6.0 * S[i + 1]
    elif der == 1:
        row[i] -= 1.0
        row[i + 1] += 1.0
        row += (1 - 3 * (1 - t) ** 2) / 6.0 * S[i] + (3 * t**2 - 1) / 6.0 * S[i + 1]
    else:
        raise ValueError
    return row


def cub_weights(a, b, n, xs, mode="linear", der=0):
    """Natural cubic spline on n equidistant nodes of [a, b]."""
    h = (b - a) / (n - 1)
    W = np.zeros((len(xs), n))
    for r, x in enumerate(xs):
        if mode == "constant" and (x < a or x > b):
            continue
        if mode == "nearest":
            x = min(max(x, a), b)
        p = min(max(x, a), b)
        u = (p - a) / h
        if der == 0:
            W[r] = _cub_row(n, u, 0)
            if p != x:
                W[r] += (x - p) / h * _cub_row(n, u, 1)
        else:
            W[r] = _cub_row(n, u, 1) / h
    return W


# ---------------------------------------------------------------- tensor products
def tensor(V, Ws):
    """Expected values at the product of locations, as an array (prod of #locations, extra...)."""
    d = len(Ws)
    out = np.asarray(V, float)
    for i, W in enumerate(Ws):
        out = np.moveaxis(np.tensordot(W, out, axes=(1, i)), 0, i)
    N = int(np.prod([W.shape[0] for W in Ws]))
    return out.reshape((N,) + out.shape[d:])


def scale(V, Ws):
    """Magnitude of the terms summed: what rounding errors are relative to."""
    d = len(Ws)
    V = np.asarray(V, float)
    m = np.abs(V).reshape((-1,) + V.shape[d:]).max(axis=0)
    out = np.ones(1)
    for W in Ws:
        out = np.multiply.outer(out, np.abs(W).sum(axis=1)).reshape(-1)
    return np.multiply.outer(out, m)


def product_points(locs):
    """All combinations of one-dimensional locations, last dimension fastest (N x d array)."""
    locs = [np.asarray(l, float) for l in locs]
    N = int(np.prod([len(l) for l in locs]))
    P = np.empty((N, len(locs)))
    for n, t in enumerate(itertools.product(*locs)):
        P[n] = t
    return P


_walks = {}


def walk(N, cap=32):
    """Indices below N such that every ordered pair of (at most cap, evenly chosen) locations is visited
    one right after the other: a batch in which whatever is kept from one location to the next shows."""
    if (N, cap) not in _walks:
        idx = np.unique(np.linspace(0, N - 1, min(N, cap)).astype(int)) if N else np.zeros(0, int)
        m = len(idx)
        seq = []
        for i in range(m):  # Eulerian circuit of the complete directed graph with loops
            seq.append(i)
            for j in range(i + 1, m):
                seq += [i, j]
        seq.append(0)
        _walks[N, cap] = idx[np.array(seq, int)] if m else idx
    return _walks[N, cap]


def mismatch(obs, exp, sc, eps=EPS):
    """Index of the first entry of obs off by more than rounding, or None.  NaN never matches a number."""
    obs = np.asarray(obs, float)
    exp = np.asarray(exp, float)
    if obs.shape != exp.shape:
        return ("shape", obs.shape, exp.shape)
    with np.errstate(all="ignore"):
        ok = np.abs(obs - exp) <= eps * (np.asarray(sc) + 1e-300) + 1e-290
    if ok.all():
        return None
    return tuple(int(i) for i in np.argwhere(~ok)[0])


# ---------------------------------------------------------------- alphabets
INTERVALS = [  # location and scale of a dimension
    (0.0, 1.0),
    (-1.0, 1.0),
    (-3.5, -1.25),
    (5.0, 15.0),
    (0.1, 0.7),
    (-0.053333333333333344, 0.053333333333333344),
    (1000.0, 1002.0),
    (1e-4, 3e-4),
    (-2e5, 3e5),
    (-1e-9, 4e-9),
    (1e7, 3e10),
]

SPACINGS = ["lin", "square", "exp", "tight", "alt", "sym", "almost", "prefix"]


def knots(kind, n, a=0.0, b=1.0):
    """Increasing nonuniform nodes of several shapes."""
    t = np.linspace(0.0, 1.0, n)
    if kind == "square":
        t = t**2
    elif kind == "exp":
        t = (np.exp(2 * t) - 1) / (np.exp(2.0) - 1)
    elif kind == "tight":  # two nodes close together
        t = t.copy()
        if n > 2:
            t[1] = t[0] + (t[2] - t[0]) * 2.0**-10
    elif kind == "alt":  # alternately short and long cells
        w = np.array([1.0 if i % 2 else 3.0 for i in range(n - 1)])
        t = np.concatenate([[0.0], np.cumsum(w) / w.sum()])
    elif kind == "sym":  # equal cells at both ends, other ones between
        w = np.ones(n - 1)
        w[(n - 1) // 2] = 4.0
        if n > 6:
            w[(n - 1) // 2 - 1] = 0.5
        t = np.concatenate([[0.0], np.cumsum(w) / w.sum()])
    elif kind == "almost":  # very nearly evenly spaced
        t = t + 2e-6 / n * np.sin(7.0 * np.arange(n))
    elif kind == "prefix":  # evenly spaced at first, then coarser
        w = np.array([1.0 if i < (n - 1 + 1) // 2 else 2.5 for i in range(n - 1)])
        t = np.concatenate([[0.0], np.cumsum(w) / w.sum()])
    x = a + (b - a) * t
    x[0], x[-1] = a, b
    return x


def inside(nodes, ts=(0.25, 0.5, 0.875)):
    """Every node, and for every cell the locations at fractions ts."""
    xs = []
    for i, x in enumerate(nodes):
        xs.append(x)
        if i + 1 < len(nodes):
            h = nodes[i + 1] - nodes[i]
            xs += [nodes[i] + t * h for t in ts]
    return np.array(xs)


def outside(nodes, dist=(0.0, 0.25, 3.0)):
    """Locations on both sides of the grid, at the given distances in grid widths (0: next float)."""
    a, b = float(nodes[0]), float(nodes[-1])
    lo, hi = [], []
    for f in dist:
        if f == 0:
            lo.append(np.nextafter(a, -np.inf))
            hi.append(np.nextafter(b, np.inf))
        else:
            lo.append(a - f * (b - a))
            hi.append(b + f * (b - a))
    return np.array(lo + hi)


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]


def generic(shape, salt=0):
    """A fixed array in general position: no two entries equal, no short linear relation."""
    N = int(np.prod(shape)) if shape else 1
    k = np.arange(1, N + 1, dtype=float)
    v = np.mod(k * np.sqrt(_PRIMES[salt % 16]) + 0.31 * salt, 1.0) * 2 - 1
    v += 0.25 * np.cos(1.7 * k + salt)
    return v.reshape(shape)


def impulses(shape):
    for idx in np.ndindex(*shape):
        V = np.zeros(shape)
        V[idx] = 1.0
        yield idx, V
