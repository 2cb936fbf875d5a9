"""interp and mlinterp."""
import itertools

import numpy as np
from numba import njit

from .. import oracle as O
from ..forms import make_grid, spec

from interpolation import interp
from interpolation.multilinear.mlinterp import mlinterp

PROPERTY = "C07"
RULE = (
    "function x grid shape x node counts x form of the location argument (numbers, tuple, array, batch, "
    "coordinate vectors; integers and floats) x Python/compiled, at the full product of nodes, cell fractions, "
    "one float beyond the edges and up to 1e19 widths away; expected value = tensor product of piecewise "
    "linear weights, clamped (interp) or continued linearly (mlinterp). Bounds: d=1..4, n=2..40 (d=1), 2..5 "
    "(d=2), 2..4 (d=3), 2..3 (d=4); nontrivial: locations not on a node"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms"]


def locs_for(nodes, ts, dist):
    return [np.concatenate([O.inside(x, ts), O.outside(x, dist)]) for x in nodes]


def cmp(rec, what, obs, exp, sc, P, n_states):
    rec.transitions += n_states
    rec.traces += 1
    obs = np.asarray(obs)
    rec.outcome(obs)
    bad = O.mismatch(obs, exp, sc)
    if bad is not None:
        num = isinstance(bad[0], (int, np.integer))
        rec.violate(f"{what}: at {P[bad[0]] if num and len(bad) == 1 else bad}: got {obs[bad] if num else obs.shape} expected {exp[bad] if num else exp.shape}", key=what.split()[0])
        return False
    return True


_c = {}


def compiled(fn, d, form):
    """Compiled loops over the rows of P calling one location at a time."""
    if (fn, d, form) not in _c:
        g = ", ".join(f"grid[{i}]" for i in range(d))
        tup = "(" + ", ".join(f"P[n, {i}]" for i in range(d)) + ",)"
        num = ", ".join(f"P[n, {i}]" for i in range(d))
        call = {
            ("interp", "numbers"): f"interp({g}, V, {num})",
            ("interp", "tuple"): f"interp({g}, V, {tup})",
            ("interp", "array"): f"interp({g}, V, P[n])",
            ("mlinterp", "tuple"): f"mlinterp(grid, V, {tup})",
        }[fn, form]
        src = f"def f(grid, V, P):\n    out = np.empty(P.shape[0])\n    for n in range(P.shape[0]):\n        out[n] = {call}\n    return out\n"
        ctx = dict(np=np, interp=interp, mlinterp=mlinterp)
        exec(src, ctx)
        _c[fn, d, form] = njit(ctx["f"])
    return _c[fn, d, form]


def run(rec, fn, types, ns, ivsets, ts, dist, forms, python_rows=0):
    d = len(types)
    mode = "nearest" if fn == "interp" else "linear"
    for nn in ns:
        for s, ivs in enumerate(ivsets):
            kinds = [O.SPACINGS[(i + s + sum(nn)) % len(O.SPACINGS)] for i in range(d)]
            grid, nodes = make_grid(types, nn, [tuple(O.INTERVALS[j]) for j in ivs], kinds)
            V = O.generic(tuple(nn), 1 + s)
            locs = locs_for(nodes, ts, dist)
            P = O.product_points(locs)
            Ws = [O.lin_weights(x, l, mode) for x, l in zip(nodes, locs)]
            exp, sc = O.tensor(V, Ws), O.scale(V, Ws)
            rec.states += len(P)
            rec.nontrivial += len(P) - int(np.prod(nn))
            for form in forms:
                what = f"{fn} grid {spec(grid)} form {form}"
                if form == "batch":
                    r = interp(*grid, V, P) if fn == "interp" else mlinterp(grid, V, P)
                elif form == "product":
                    r = interp(*grid, V, *locs)
                    if d == 2 and np.asarray(r).shape == (len(locs[0]), len(locs[1])):
                        r = np.asarray(r).reshape(-1)
                else:
                    r = compiled(fn, d, form)(grid, V, P)
                if not cmp(rec, what, r, exp, sc, P, len(P)):
                    return
                if form == "batch":
                    w = O.walk(len(P))
                    r = interp(*grid, V, P[w]) if fn == "interp" else mlinterp(grid, V, P[w])
                    if not cmp(rec, what + " every ordered pair of locations", r, exp[w], sc[w], P[w], len(w)):
                        return
            for n in range(0, len(P), max(1, len(P) // python_rows)) if python_rows else []:
                p = [float(x) for x in P[n]]
                calls = {}
                if fn == "interp":
                    calls["numbers"] = interp(*grid, V, *p)
                    calls["tuple"] = interp(*grid, V, tuple(p))
                    if d > 1:
                        calls["array"] = interp(*grid, V, np.array(p))
                else:
                    calls["tuple"] = mlinterp(grid, V, tuple(p))
                for form, r in calls.items():
                    if np.ndim(r) or not cmp(rec, f"{fn} from Python grid {spec(grid)} form {form} at {p}", np.array([float(r)]), exp[n : n + 1], sc[n : n + 1], P[n : n + 1], 1):
                        rec.violate(f"{fn} from Python, {form}", key=fn)
                        return
    rec.sample(dict(function=fn, grid=spec(grid), location=P[len(P) // 2].tolist(), expected=float(exp[len(P) // 2])))


def product(rec, types):
    """Coordinate vectors of every pair of lengths; rows and columns in the order given."""
    grid, nodes = make_grid(types, (4, 3), ((0.0, 1.0), (5.0, 15.0)), ("square", "alt"))
    V = O.generic((4, 3), 2)
    for N in (0, 1, 2, 3, 5, 8, 33):
        for M in (0, 1, 2, 3, 5, 8, 33):
            x = np.mod(np.arange(N) * 0.618, 1.0) * 1.4 - 0.2
            y = 5 + 10 * (np.mod(np.arange(M) * 0.414 + 0.3, 1.0) * 1.4 - 0.2)
            W = [O.lin_weights(nodes[0], x, "nearest"), O.lin_weights(nodes[1], y, "nearest")]
            exp, sc = O.tensor(V, W).reshape(N, M), O.scale(V, W).reshape(N, M)
            for lx, ly in ((x, y), (np.repeat(x, 2)[::2], y), (x, y[::-1].copy()[::-1])):
                r = interp(*grid, V, lx, ly)
                rec.states += 1
                rec.nontrivial += 1
                if not cmp(rec, f"interp grid {types} coordinate vectors of lengths {N}, {M}", r, exp, sc, None, N * M):
                    return


def sizes(rec, d, types):
    grid, nodes = make_grid(types, (4, 3, 2, 3)[:d], ((0.0, 1.0), (5.0, 15.0), (-3.5, -1.25), (0.1, 0.7))[:d], ("square", "alt", "exp", "tight"))
    V = O.generic((4, 3, 2, 3)[:d], 2)
    a = np.array([x[0] for x in nodes])
    b = np.array([x[-1] for x in nodes])
    for N in (0, 1, 2, 3, 4, 7, 8, 9, 31, 64, 65, 100, 257, 1000, 4097):
        u = np.mod(np.outer(np.arange(1, N + 1), np.sqrt([2.0, 3.0, 5.0, 7.0][:d])), 1.0) * 1.3 - 0.15
        P = a + (b - a) * u
        for fn, mode in (("interp", "nearest"), ("mlinterp", "linear")):
            W = [O.lin_weights(x, P[:, i], mode) for i, x in enumerate(nodes)]
            exp = np.einsum(",".join("n" + c for c in "abcd"[:d]) + "," + "abcd"[:d] + "->n", *W, V)
            sc = np.full(N, np.abs(V).max()) * np.prod([np.abs(w).sum(1) for w in W], axis=0)
            for lay in ("C", "F", "S"):
                Q = np.array(P, order="F") if lay == "F" else np.repeat(np.repeat(P, 2, 0), 2, 1)[::2, ::2] if lay == "S" else P
                r = interp(*grid, V, Q) if fn == "interp" else mlinterp(grid, V, Q)
                rec.states += 1
                rec.nontrivial += 1
                if not cmp(rec, f"{fn} grid {types} batch of {N} stored {lay}", r, exp, sc, P, N):
                    return
        if d == 1:
            exp = O.lin_weights(nodes[0], P[:, 0], "nearest") @ V
            r = interp(*grid, V, P[:, 0].copy())
            if not cmp(rec, f"interp grid {types} vector of {N} coordinates", r, exp, np.full(N, np.abs(V).max()), P, N):
                return


def kinds(rec, d):
    """Integer locations, integer and single precision values, strided values and nodes."""
    ns = (4, 3, 5, 2)[:d]
    nodes = [np.array([-1.0, 0.5, 2.0, 4.0]), np.array([0.0, 3.0, 4.0]), np.array([-3.0, -2.5, 0.0, 1.0, 6.0]), np.array([-2.0, 2.0])][:d]
    grid = tuple(nodes)
    vals = np.round(10 * O.generic(ns, 4))
    for p in itertools.product(*[(-4, -1, 1, 3, 7)] * d):
        for fn, mode in (("interp", "nearest"), ("mlinterp", "linear")):
            W = [O.lin_weights(x, [float(c)], mode) for x, c in zip(nodes, p)]
            exp, sc = O.tensor(vals, W), O.scale(vals, W)
            rec.states += 1
            rec.nontrivial += 1
            for V in (vals, vals.astype("int64"), vals.astype("float32"), np.asfortranarray(vals), np.repeat(vals, 2, 0)[::2]) if p[0] in (1, 7) else (vals,):
                rs = [interp(*grid, V, tuple(p)), interp(*grid, V, *p)] if fn == "interp" else [mlinterp(grid, V, tuple(p))]
                for r in rs:
                    if not cmp(rec, f"{fn} integer location {p} values {V.dtype} {V.strides}", np.array([float(r)]), exp, sc, [p], 1):
                        return
    for how in ("int", "strided", "readonly"):
        if how == "int":
            g = tuple(np.array([0, 1, 3, 7][: len(x)] + [9] * max(0, len(x) - 4)) for x in nodes)
        elif how == "strided":
            g = tuple(np.repeat(x, 2)[::2] for x in nodes)
        else:
            g = tuple(x.copy() for x in nodes)
            for x in g:
                x.flags.writeable = False
        ls = [np.concatenate([O.inside(x.astype(float), (0.3,)), [x[0] - 2.5, x[-1] + 1.5]]) for x in g]
        P = O.product_points(ls)
        for fn, mode in (("interp", "nearest"), ("mlinterp", "linear")):
            W = [O.lin_weights(x, l, mode) for x, l in zip(g, ls)]
            r = interp(*g, vals, P) if fn == "interp" else mlinterp(g, vals, P)
            rec.states += len(P)
            rec.nontrivial += len(P)
            if not cmp(rec, f"{fn} node arrays {how}", r, O.tensor(vals, W), O.scale(vals, W), P, len(P)):
                return


def tasks(tier):
    T = []
    big = tier == "thorough"
    allc = lambda d: ["".join(t) for t in itertools.product("un", repeat=d)]
    F = {"interp": ["batch", "numbers", "tuple"], "mlinterp": ["batch", "tuple"]}
    far = [0.0, 0.3, 7.0, 1e6, 1e12, 1e19]
    for fn in ("interp", "mlinterp"):
        for t in allc(1):
            T.append((5, "run", dict(fn=fn, types=t, ns=[[n] for n in list(range(2, 41 if not big else 150)) + [100, 257]], ivsets=[[i] for i in range(len(O.INTERVALS))], ts=[0.25, 0.5, 0.875], dist=far, forms=F[fn] + (["product", "array"][:1] if fn == "interp" else []))))
            T.append((4, "run", dict(fn=fn, types=t, ns=[[2], [5]], ivsets=[[1], [3]], ts=[0.375], dist=far, forms=[], python_rows=40)))
        for t in allc(2):
            T.append((6, "run", dict(fn=fn, types=t, ns=list(itertools.product((2, 3, 4, 5) if not big else range(2, 9), repeat=2)), ivsets=[[0, 1], [2, 3], [4, 6]], ts=[0.25, 0.875], dist=[0.0, 0.4, 1e5], forms=F[fn] + (["product", "array"] if fn == "interp" else []))))
            T.append((3, "run", dict(fn=fn, types=t, ns=[[2, 40], [33, 3]], ivsets=[[0, 1]], ts=[0.375], dist=[0.4], forms=["batch"], python_rows=30)))
        for t in allc(3):
            T.append((6, "run", dict(fn=fn, types=t, ns=list(itertools.product((2, 3, 4), repeat=3)), ivsets=[[0, 3, 1]] + ([[2, 4, 5]] if big else []), ts=[0.375], dist=[0.4], forms=F[fn] + (["array"] if fn == "interp" else []), python_rows=3 if t == "nnn" else 0)))
        for t in allc(4):
            T.append((6, "run", dict(fn=fn, types=t, ns=list(itertools.product((2, 3), repeat=4)), ivsets=[[0, 3, 1, 2]], ts=[0.375], dist=[0.4], forms=F[fn] + (["array"] if fn == "interp" else []), python_rows=2 if t == "nnnn" else 0)))
    for t in ("nn", "uu", "un", "nu"):
        T.append((2, "product", dict(types=t)))
    for d in (1, 2, 3, 4):
        for t in ("n" * d, "u" * d):
            T.append((4, "sizes", dict(d=d, types=t)))
    for d in (1, 2, 3):
        T.append((5, "kinds", dict(d=d)))
    return T
