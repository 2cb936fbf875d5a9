"""Filtering and evaluating with cubic order: the natural cubic spline."""
import itertools

import numpy as np

from .. import oracle as O
from ..forms import evaluate, make_grid, spec

from interpolation.splines import filter_cubic, prefilter

PROPERTY = "C03"
RULE = (
    "every node-count tuple within the bound, several intervals, scalar and vector data (generic, every unit "
    "impulse, affine, large, small), both filtering functions, new and supplied coefficient arrays holding "
    "0 / NaN / inf / 1e300, values and coefficients in every memory layout, integer and single precision values; evaluated at every node and 3 fractions of every cell in every dimension "
    "and compared with the tensor-product natural cubic spline obtained from its moment equations. "
    "Bounds: d=1 n=2..40 and to 1000, d=2 n=2..6, d=3 n=2..4, d=4 n=2..3; nontrivial: locations not nodes"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms"]


def sweep(rec, grid, nodes, ts, data, batch=True, fills=()):
    d = len(grid)
    locs = [O.inside(x, ts) for x in nodes]
    P = O.product_points(locs)
    Ws = [O.cub_weights(g[0], g[1], g[2], l) for g, l in zip(grid, locs)]
    rec.states += len(P)
    rec.nontrivial += len(P) - int(np.prod([len(x) for x in nodes]))
    for name, V in data:
        V0 = V.copy()
        C = prefilter(grid, V, out=None, k=3)
        want = tuple(n + 2 for n in V.shape[:d]) + V.shape[d:]
        if C.shape != want:
            rec.violate(f"coefficient shape {C.shape}, expected {want}, grid {spec(grid)}", key="shape")
            return
        C2 = filter_cubic(grid, V)
        csc = np.abs(C).max() + 1e-300
        if O.mismatch(C2, C, csc) is not None:
            rec.violate(f"filter_cubic and prefilter differ, grid {spec(grid)} data {name}", key="entry")
            return
        for fill in fills:
            for fn in ("prefilter", "filter_cubic"):
                out = np.full(want, fill)
                if fn == "prefilter":
                    prefilter(grid, V, out=out, k=3)
                else:
                    filter_cubic(grid, V, out)
                rec.transitions += 1
                if O.mismatch(out, C, csc) is not None:
                    rec.violate(f"{fn} into an array holding {fill} differs, grid {spec(grid)} data {name}", key="out")
                    return
        if V.ndim == d + 1 and fills:
            for j in range(V.shape[-1]):
                Cj = prefilter(grid, np.ascontiguousarray(V[..., j]), out=None, k=3)
                rec.transitions += 1
                if O.mismatch(np.ascontiguousarray(C[..., j]), Cj, csc) is not None:
                    rec.violate(f"component {j} of vector data filtered differently, grid {spec(grid)}", key="component")
                    return
        if not (V == V0).all():
            rec.violate("filtering changed the values", key="mutation")
            return
        exp, sc = O.tensor(V, Ws), O.scale(V, Ws)
        obs = evaluate(grid, C, P, 3, "linear", None, batch)
        rec.transitions += len(P)
        rec.traces += 1
        rec.outcome(obs)
        bad = O.mismatch(obs, exp, sc)
        if bad is not None:
            num = isinstance(bad[0], int)
            rec.violate(
                f"not the natural cubic spline: grid {spec(grid)} data {name} at "
                f"{P[bad[0]].tolist() if num else bad}: got {obs[bad] if num else obs.shape} expected "
                f"{exp[bad] if num else exp.shape}", key="value", grid=spec(grid), values=V,
            )
            return
        if name == "generic" and batch:
            w = O.walk(len(P))
            obs = evaluate(grid, C, P[w], 3, "linear", None, True)
            rec.transitions += len(w)
            if O.mismatch(obs, exp[w], sc[w]) is not None:
                rec.violate(f"value depends on the order of the batch: grid {spec(grid)}", key="order")
                return
    rec.sample(dict(grid=spec(grid), location=P[len(P) // 3].tolist(), expected=repr(exp[len(P) // 3])))


def data_for(nodes, imp, vec):
    shape = tuple(len(x) for x in nodes)
    out = [("generic", O.generic(shape))]
    out.append(("affine", sum((i + 1) * x.reshape([-1 if j == i else 1 for j in range(len(shape))]) for i, x in enumerate(nodes)) + np.zeros(shape)))
    out.append(("large", 1e12 * O.generic(shape, 3)))
    out.append(("small", 1e-9 * O.generic(shape, 4)))
    if imp:
        out += [(f"impulse{i}", V) for i, V in O.impulses(shape)]
    for nx in vec:
        out.append((f"vec{nx}", O.generic(shape + (nx,), nx)))
    return out


FILLS = (0.0, np.nan, np.inf, 1e300)


def grids(rec, d, ns, ivsets, ts, imp, vec, fills, batch=True):
    for nn in ns:
        for s, ivs in enumerate(ivsets):
            ivs = [tuple(O.INTERVALS[j]) for j in ivs]
            grid, nodes = make_grid("u" * d, nn, ivs)
            sweep(rec, grid, nodes, ts, data_for(nodes, imp and s == 0 and max(nn) <= 8, vec), batch, FILLS if fills else ())


def identity(rec, d, ns):
    """Filtering for linear order returns the values unchanged."""
    for nn in ns:
        for vec in (0, 2):
            for t in itertools.product("un", repeat=d) if d < 3 else ["u" * d]:
                grid, nodes = make_grid("".join(t), nn, [O.INTERVALS[i] for i in range(d)])
                V = O.generic(tuple(nn) + ((vec,) if vec else ()), 1)
                V0 = V.copy()
                R = prefilter(grid, V, out=None, k=1)
                rec.states += 1
                rec.transitions += 1
                rec.traces += 1
                if R.shape != V0.shape or not (R == V0).all() or not (V == V0).all():
                    rec.violate(f"prefilter with k=1 changed the values, grid {spec(grid)}", key="k1")
                    return


def stored(rec, d, nx):
    """How values and the supplied coefficient array are stored; wide vectors; arrays used again."""
    nn = (4, 3, 2, 3)[:d]
    grid, nodes = make_grid("u" * d, nn, [O.INTERVALS[(3 + i) % 6] for i in range(d)])
    locs = [O.inside(x, (0.375,)) for x in nodes]
    P = O.product_points(locs)
    Ws = [O.cub_weights(g[0], g[1], g[2], l) for g, l in zip(grid, locs)]
    V = np.round(50 * O.generic(nn + ((nx,) if nx else ()), 3))
    want = tuple(n + 2 for n in nn) + V.shape[d:]
    exp, sc = O.tensor(V, Ws), O.scale(V, Ws)
    C0 = None
    for how in ("C", "F", "S", "R", "ro", "int64", "int32", "float32"):
        A = store(V, how)
        for target in ("new", "C", "F", "S", "again"):
            if target in ("F", "S") and how not in ("C", "F", "S"):
                continue
            for fn in ("prefilter", "filter_cubic"):
                if target == "new":
                    R = prefilter(grid, A, out=None, k=3) if fn == "prefilter" else filter_cubic(grid, A)
                else:
                    R = store(np.full(want, np.nan), "C" if target == "again" else target)
                    if target == "again":  # filtered into before, with other values
                        filter_cubic(grid, O.generic(V.shape, 5), R)
                    if fn == "prefilter":
                        prefilter(grid, A, out=R, k=3)
                    else:
                        filter_cubic(grid, A, R)
                rec.states += 1
                rec.transitions += 1
                rec.traces += 1
                rec.nontrivial += how != "C"
                if R.shape != want:
                    rec.violate(f"{fn}: values stored as {how}, d={d} vector={nx}: coefficients of shape {R.shape}", key="shape")
                    return
                if not np.array_equal(A, V):
                    rec.violate(f"{fn} changed values stored as {how}", key="mutation")
                    return
                if C0 is None:
                    C0 = np.array(R)
                    obs = evaluate(grid, C0, P, 3, "linear", None, True)
                    if O.mismatch(obs, exp, sc) is not None:
                        rec.violate(f"not the natural cubic spline: grid {spec(grid)} vector={nx}", key="value")
                        return
                elif O.mismatch(np.array(R), C0, np.abs(C0).max()) is not None:
                    rec.violate(f"{fn}: values stored as {how}, output {target}, d={d} vector={nx}: other coefficients than from plain arrays", key="stored")
                    return


def store(A, how):
    if how == "F":
        return np.asfortranarray(A)
    if how == "S":
        B = np.full(tuple(2 * s for s in A.shape), 7e77)[tuple(slice(None, None, 2) for _ in A.shape)]
        B[...] = A
        return B
    if how == "R":
        return A[::-1].copy()[::-1]
    if how in ("C", "ro"):
        B = A.copy()
        B.flags.writeable = how == "C"
        return B
    return A.astype(how)


def tasks(tier):
    T = []
    big = tier == "thorough"
    for d, nx in ((1, 0), (1, 2), (2, 0), (2, 2), (3, 0)) + (((3, 2), (4, 0), (4, 2)) if big else ()):
        T.append((6 * d, "stored", dict(d=d, nx=nx)))
    T.append((3, "grids", dict(d=1, ns=[[5]], ivsets=[[0], [2]], ts=[0.375], imp=False, vec=[4, 7, 8, 9, 16, 17, 33, 64, 100], fills=True)))
    T.append((3, "grids", dict(d=2, ns=[[3, 4]], ivsets=[[0, 3]], ts=[0.375], imp=False, vec=[4, 8, 9, 17, 33], fills=False)))
    r = [list(range(2, 12)), list(range(12, 24)), list(range(24, 41))]
    if big:
        r += [list(range(41, 100)), list(range(100, 160))]
    for i, ns in enumerate(r):
        for ivs in ([[0], [1], [2]], [[3], [4], [5]], [[6], [7], [8]]):
            T.append((5, "grids", dict(d=1, ns=[[n] for n in ns], ivsets=ivs, ts=[0.25, 0.5, 0.875], imp=True, vec=[1, 2, 3], fills=i == 0)))
    T.append((4, "grids", dict(d=1, ns=[[n] for n in (2, 3, 5, 9)], ivsets=[[0], [4]], ts=[0.25, 0.9], imp=True, vec=[2], fills=False, batch=False)))
    T.append((3, "grids", dict(d=1, ns=[[n] for n in (63, 64, 65, 100, 128, 200, 256, 500, 1000)], ivsets=[[0], [2]], ts=[0.5], imp=False, vec=[], fills=True)))
    n2 = list(itertools.product(range(2, 7 if not big else 10), repeat=2))
    for i in range(5):
        T.append((6, "grids", dict(d=2, ns=n2[i::5], ivsets=[[0, 3], [2, 4], [6, 5]], ts=[0.25, 0.875], imp=True, vec=[1, 2], fills=True)))
    T.append((5, "grids", dict(d=2, ns=[[2, 30], [30, 2], [17, 9], [9, 17], [3, 65], [65, 3]], ivsets=[[1, 4]], ts=[0.375], imp=False, vec=[], fills=True)))
    T.append((5, "grids", dict(d=2, ns=[[2, 3], [4, 2]], ivsets=[[1, 4]], ts=[0.375], imp=True, vec=[2], fills=False, batch=False)))
    n3 = list(itertools.product(range(2, 5 if not big else 6), repeat=3))
    for i in range(5):
        T.append((9, "grids", dict(d=3, ns=n3[i::5], ivsets=[[0, 3, 4]] + ([[5, 1, 2]] if big else []), ts=[0.375], imp=True, vec=[2], fills=True)))
    T.append((6, "grids", dict(d=3, ns=[[2, 3, 9], [9, 2, 3], [3, 9, 2], [5, 6, 7], [7, 5, 6], [6, 7, 5], [11, 4, 5]], ivsets=[[0, 3, 4]], ts=[0.375], imp=False, vec=[], fills=True)))
    n4 = list(itertools.product((2, 3), repeat=4)) + [(4, 2, 3, 5), (5, 4, 2, 3), (3, 5, 4, 2), (2, 3, 5, 4)]
    T.append((14, "grids", dict(d=4, ns=n4, ivsets=[[0, 3, 4, 1]], ts=[0.375], imp=big, vec=[], fills=True)))
    T.append((15, "grids", dict(d=4, ns=[(2, 3, 4, 2)], ivsets=[[0, 3, 4, 1]], ts=[0.375], imp=True, vec=[2], fills=True)))
    for d in (1, 2, 3, 4):
        T.append((1, "identity", dict(d=d, ns=[[2, 3, 4, 2][:d], [5, 2, 2, 3][:d]])))
    return T
