"""Multilinear interpolation inside the grid."""
import itertools

import numpy as np

from .. import oracle as O
from ..forms import evaluate, make_grid, spec

PROPERTY = "C01"
RULE = (
    "every grid shape (uniform/nonuniform per dimension), node count and interval of the stated lists, "
    "every node and 3 fractions of every cell in every dimension (full cartesian product), scalar and "
    "vector data (generic, every unit impulse, large and small magnitudes), batch (also in an order visiting every ordered pair of locations) and single-location "
    "evaluation; expected value = tensor product of piecewise linear weights. All nonuniform grids with nodes among nine integers (pairs of dimensions: five), all data over {-1, 0, 1} on small grids. Quick bound: d=1 n=2..40, "
    "d=2 n=2..5, d=3 n=2..4, d=4 n=2..3, d=5 n=2..3; nontrivial: locations that are not nodes"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms"]


def sweep(rec, grid, nodes, ts, data, forms, entry="spline"):
    locs = [O.inside(x, ts) for x in nodes]
    P = O.product_points(locs)
    Ws = [O.lin_weights(x, l) for x, l in zip(nodes, locs)]
    isnode = [np.isin(l, x) for l, x in zip(locs, nodes)]
    m = isnode[0]
    for e in isnode[1:]:
        m = np.logical_and.outer(m, e).reshape(-1)
    rec.states += len(P)
    rec.nontrivial += int((~m).sum())
    for name, V in data:
        exp, sc = O.tensor(V, Ws), O.scale(V, Ws)
        for batch, ptype in forms:
            obs = evaluate(grid, V, P, 1, "linear", None, batch, True, ptype, entry)
            rec.transitions += len(P)
            rec.traces += 1
            rec.outcome(obs)
            bad = O.mismatch(obs, exp, sc)
            if bad is not None:
                rec.violate(
                    f"multilinear value off on grid {spec(grid)} data {name} batch={batch} "
                    f"location {P[bad[0]].tolist() if isinstance(bad[0], int) else bad}: "
                    f"got {obs[bad] if isinstance(bad[0], int) else obs.shape} "
                    f"expected {exp[bad] if isinstance(bad[0], int) else exp.shape}",
                    key="value", grid=spec(grid), data=V, location=P[bad[0]] if isinstance(bad[0], int) else None,
                )
                return
            if batch and name in ("generic", "vec1", "vec2", "vec3"):
                w = O.walk(len(P))
                obs_w = evaluate(grid, V, P[w], 1, "linear", None, batch, True, ptype, entry)
                rec.transitions += len(w)
                bad = O.mismatch(obs_w, exp[w], sc[w])
                if bad is not None:
                    rec.violate(f"multilinear value depends on the order of the batch on grid {spec(grid)}", key="order", locations=P[w][max(0, bad[0] - 2) : bad[0] + 1])
                    return
            # at a node the stored value itself comes back
            if V.ndim == len(grid):
                obs_n = obs[m]
                if O.mismatch(obs_n, V.reshape(-1), np.abs(V).max()) is not None:
                    rec.violate(f"node values not reproduced on grid {spec(grid)}", key="node")
                    return
    rec.sample(dict(grid=spec(grid), location=P[len(P) // 2].tolist(), value=repr(exp[len(P) // 2])))


def data_for(shape, vec=False, imp=True):
    out = [("generic", O.generic(shape))]
    if not vec:
        out.append(("large", 1e12 * O.generic(shape, 3)))
        out.append(("small", 1e-9 * O.generic(shape, 4)))
        out.append(("integers", np.round(4 * O.generic(shape, 5))))
        if imp:
            out += [(f"impulse{i}", V) for i, V in O.impulses(shape)]
    return out


BOTH = [(True, "array"), (False, "array"), (False, "tuple")]
BATCH = [(True, "array")]


def d1(rec, typ, nmax, kinds):
    for n in range(2, nmax + 1):
        for iv in O.INTERVALS:
            for kind in kinds:
                if n > 12 and iv not in O.INTERVALS[:3]:
                    continue
                grid, nodes = make_grid(typ, (n,), (iv,), (kind,))
                sweep(rec, grid, nodes, (0.25, 0.5, 0.875), data_for((n,), imp=n <= 6 and iv == (0.0, 1.0)), BOTH)
                for nx in (1, 2, 3, 5):
                    if n <= 6 or nx == 2:
                        sweep(rec, grid, nodes, (0.25,), [(f"vec{nx}", O.generic((n, nx), nx))], BOTH[:2])


def dn(rec, types, ns, ts, ivsets, forms, nxs, imp):
    forms = BOTH if forms == "both" else BATCH
    d = len(types)
    for nn in itertools.product(ns, repeat=d):
        for s, ivs in enumerate(ivsets):
            ivs = [tuple(O.INTERVALS[j]) for j in ivs]
            kinds = [O.SPACINGS[(1 + i + s + sum(nn)) % len(O.SPACINGS)] for i in range(d)]
            grid, nodes = make_grid(types, nn, ivs, kinds)
            sweep(rec, grid, nodes, ts, data_for(nn, imp=imp and s == 0), forms)
            for nx in nxs:
                sweep(rec, grid, nodes, ts[:1], [(f"vec{nx}", O.generic(nn + (nx,), nx))], forms[:2])


def longgrids(rec, types, sizes):
    """Long dimensions, alone and next to a short one."""
    d = len(types)
    for nn in sizes:
        nn = tuple(nn)
        ivs = [O.INTERVALS[(i + nn[0]) % 6] for i in range(d)]
        grid, nodes = make_grid(types, nn, ivs, ["square", "exp", "alt"][:d])
        sweep(rec, grid, nodes, (0.5,), [("generic", O.generic(nn))], BATCH)


def wide(rec, types):
    """Many components."""
    nn = (5, 4)[: len(types)]
    grid, nodes = make_grid(types, nn, [O.INTERVALS[2], O.INTERVALS[3]][: len(types)], ["square", "alt"])
    for nx in list(range(1, 35)) + [63, 64, 65, 100, 128, 129, 257]:
        sweep(rec, grid, nodes, (0.375,), [(f"vec{nx}", O.generic(nn + (nx,), nx))], BOTH[:2])


def subsets(rec, m, part, parts, single=True):
    """Every nonuniform grid with nodes among the first m integers (many cells of equal width)."""
    subs = [c for k in range(2, m + 1) for c in itertools.combinations(range(m), k)]
    for c in subs[part::parts]:
        x = np.array(c, float)
        for sc, sh in ((1.0, 0.0), (0.1, -0.3)):
            sweep(rec, (sc * x + sh,), [sc * x + sh], (0.25, 0.5, 0.875), [("generic", O.generic((len(c),)))], BOTH[: 2 if single else 1])


def subsets2(rec, types, m, part, parts):
    """The same for pairs of dimensions."""
    subs = [c for k in range(2, m + 1) for c in itertools.combinations(range(m), k)]
    for a, b in list(itertools.product(subs, repeat=2))[part::parts]:
        x, y = np.array(a, float), np.array(b, float)
        grid = (x, y) if types == "nn" else (x, (float(b[0]), float(b[-1]), len(b)))
        if types == "nu":
            y = np.linspace(b[0], b[-1], len(b))
        sweep(rec, grid, [x, y], (0.5,), [("generic", O.generic((len(a), len(b))))], BATCH)


def trits(rec, types, nn, part=0, parts=1):
    """All data over {-1, 0, 1}: zeros, equal neighbours and cancellations in every place."""
    grid, nodes = make_grid(types, nn, O.INTERVALS[: len(nn)], ["square", "alt", "exp"])
    for v in itertools.islice(itertools.product((0.0, 1.0, -1.0), repeat=int(np.prod(nn))), part, None, parts):
        sweep(rec, grid, nodes, (0.25,), [("trits", np.array(v).reshape(nn))], BATCH)


def combos(d):
    return ["".join(t) for t in itertools.product("un", repeat=d)]


def tasks(tier):
    T = []
    big = tier == "thorough"
    for t in "un":
        for kinds in ([["-"]] if t == "u" else [[k] for k in O.SPACINGS]):
            T.append((10, "d1", dict(typ=t, nmax=120 if big else 40, kinds=kinds)))
        T.append((4, "longgrids", dict(types=t, sizes=[[n] for n in (63, 64, 65, 100, 127, 128, 129, 256, 257, 1000, 1025)])))
        T.append((3, "wide", dict(types=t)))
    T.append((3, "wide", dict(types="un")))
    for i in range(4):
        T.append((6, "subsets", dict(m=11 if big else 9, part=i, parts=4)))
        for t in ("nn", "nu"):
            T.append((6, "subsets2", dict(types=t, m=5 if not big else 6, part=i, parts=4)))
    for t in "un":
        for n in range(2, 8 if big else 7):
            T.append((4, "trits", dict(types=t, nn=(n,))))
        T.append((5, "trits", dict(types=t + "u", nn=(2, 3))))
        T.append((3, "trits", dict(types=t + "u", nn=(2, 2))))
    if big:
        for i in range(4):
            T.append((5, "trits", dict(types="uuu", nn=(2, 2, 2), part=i, parts=4)))
    for t in combos(2):
        T.append((8, "dn", dict(types=t, ns=[2, 3, 4, 5] + ([6, 7] if big else []), ts=[0.25, 0.875], ivsets=[[0, 1], [2, 3], [4, 6]] + ([[5, 8], [7, 0]] if big else []), forms="both", nxs=[1, 3], imp=True)))
        T.append((4, "longgrids", dict(types=t, sizes=[[2, 40], [40, 2], [65, 17], [17, 65], [3, 129]])))
    for t in combos(3):
        T.append((9, "dn", dict(types=t, ns=[2, 3, 4] + ([5] if big else []), ts=[0.25, 0.875] if big else [0.375], ivsets=[[0, 3, 1], [2, 4, 5]], forms="both", nxs=[2], imp=big)))
        T.append((5, "longgrids", dict(types=t, sizes=[[2, 3, 20], [20, 2, 3], [3, 20, 2]])))
    for t in combos(4):
        T.append((7, "dn", dict(types=t, ns=[2, 3], ts=[0.375] if not big else [0.25, 0.875], ivsets=[[0, 3, 1, 2]] + ([[4, 5, 6, 7]] if big else []), forms="both" if big or t in ("uuuu", "nunu") else "batch", nxs=[2] if big or t in ("uuuu", "nunu", "nnnn") else [], imp=False)))
    for t in (["uuuuu", "nunun", "nnnnn"] if not big else combos(5)):
        T.append((9, "dn", dict(types=t, ns=[2, 3], ts=[0.375], ivsets=[[0, 3, 1, 2, 4]], forms="both" if t == "uuuuu" else "batch", nxs=[2] if t == "uuuuu" else [], imp=False)))
    return T
