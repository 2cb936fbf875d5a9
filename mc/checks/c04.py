"""Derivatives requested by multi-indices."""
import itertools

import numpy as np

from .. import oracle as O
from ..forms import all_forms, evaluate, make_grid, spec

from interpolation.splines import prefilter

PROPERTY = "C04"
RULE = (
    "spline order x grid shape x list of multi-indices (every single index, every ordered pair and "
    "permutations up to the bound, complete lists, repetitions) x call form x scalar/vector data x option; "
    "locations: nodes, cell fractions, outside on both sides (full product); expected value = tensor product "
    "of one-dimensional derivative weights, at interior nodes of linear splines for either adjacent cell. "
    "Bounds: linear d=1..4 all uniform/nonuniform combinations, some of d=5, orders 0..3; cubic d=1..4, orders 0..1; "
    "nontrivial: (location, multi-index) pairs of positive order"
)
ASSUMPTIONS = [
    "results are compared up to 1e-9 of the magnitude of the summed terms",
    "kernels are compiled with NUMBA_OPT=0",
]


def weights(k, g, x, l, mode, der, side):
    if k == 1:
        return O.lin_weights(x, l, mode, der, side)
    return O.cub_weights(g[0], g[1], g[2], l, mode, der)


def go(rec, k, types, lists, forms, ns, ivsets, nxs, modes, ts=(0.375,), dist=(0.3, 1e4), uniform_out=True):
    d = len(types)
    forms = [tuple(f) for f in forms] if forms else None
    lists = [tuple(tuple(o) for o in L) for L in lists]
    for nn in ns:
        for s, ivs in enumerate(ivsets):
            ivs = [tuple(O.INTERVALS[j]) for j in ivs]
            kinds = [O.SPACINGS[(1 + i + s) % len(O.SPACINGS)] for i in range(d)]
            grid, nodes = make_grid(types, nn, ivs, kinds)
            for mode in modes:
                locs = []
                for x in nodes:
                    l = O.inside(x, ts)
                    if mode != "nearest":
                        l = np.concatenate([l, O.outside(x, dist)])
                    locs.append(l)
                P = O.product_points(locs)
                out = np.zeros(1, bool)
                for l, x in zip(locs, nodes):
                    out = np.logical_or.outer(out, (l < x[0]) | (l > x[-1])).reshape(-1)
                alltuples = sorted({o for L in lists for o in L})
                for nx in nxs:
                    V = O.generic(tuple(nn) + ((nx,) if nx else ()), 2 + nx)
                    C = V if k == 1 else prefilter(grid, V, out=None, k=3)
                    ref = {}
                    for o in alltuples:
                        sides = [(0, 1) if k == 1 and e == 1 else (0,) for e in o]
                        cands = []
                        for sd in itertools.product(*sides):
                            Ws = [weights(k, g, x, l, mode, e, q) for g, x, l, e, q in zip(grid, nodes, locs, o, sd)]
                            sc = O.scale(V, Ws)
                            if k == 1 and max(o) > 1:
                                sc = sc + 1e-12
                            cands.append((O.tensor(V, Ws), sc))
                        ref[o] = cands
                    for L in lists:
                        rec.states += len(P) * len(L)
                        rec.nontrivial += len(P) * sum(1 for o in L if sum(o))
                        for f in forms or all_forms(nx > 0, L):
                            obs = evaluate(grid, C, P, k, mode, L, *f)
                            rec.transitions += len(P)
                            rec.traces += 1
                            rec.outcome(obs)
                            if f[0] and len(P) <= 3000:
                                w = O.walk(len(P))
                                obs_w = evaluate(grid, C, P[w], k, mode, L, *f)
                                rec.transitions += len(w)
                                tol = np.stack([O.EPS * (sum(sc for _, sc in ref[o]) + 1e-300) for o in L], -1)[w]
                                if obs_w.shape != obs[w].shape or not (np.abs(obs_w - obs[w]) <= tol).all():
                                    rec.violate(f"order {k} option {mode} grid {spec(grid)} derivatives {L}: result depends on the order of the batch", key="order")
                                    return
                            want = (len(P),) + ((nx,) if nx else ()) + (len(L),)
                            if obs.shape != want:
                                rec.violate(f"shape {obs.shape} expected {want} for multi-indices {L}", key="shape")
                                return
                            for j, o in enumerate(L):
                                ok = np.zeros(obs.shape[:-1], bool)
                                for e, sc in ref[o]:
                                    with np.errstate(all="ignore"):
                                        ok |= np.abs(obs[..., j] - e) <= O.EPS * (sc + 1e-300)
                                if not ok.all():
                                    b = tuple(np.argwhere(~ok)[0])
                                    rec.violate(
                                        f"order {k} option {mode} grid {spec(grid)} form(batch,alloc,type)={f} vector={nx}: entry "
                                        f"{j} of derivatives {L} at {P[b[0]].tolist()} is {obs[b + (j,)]}, expected "
                                        f"{[e[b] for e, _ in ref[o]]}", key=f"{k}-deriv", grid=spec(grid), values=V,
                                    )
                                    return
            rec.sample(dict(order=k, grid=spec(grid), lists=[list(map(list, L)) for L in lists[:2]], locations=len(P)))


def idx(d, m):
    return list(itertools.product(range(m + 1), repeat=d))


def tasks(tier):
    T = []
    big = tier == "thorough"
    A, I, PA, PT, PI, PTI = [(True, True, "array")], [(True, False, "array")], [(False, True, "array")], [(False, True, "tuple")], [(False, False, "array")], [(False, False, "tuple")]
    OUT = ["linear", "constant"]
    # ---- linear
    for t in "un":
        L = [[o] for o in idx(1, 3)] + [list(p) for p in itertools.product(idx(1, 2), repeat=2)] + [list(p) for p in itertools.permutations(idx(1, 2))]
        n1 = [[2], [3], [6]]
        T.append((6, "go", dict(k=1, types=t, lists=L, forms=A, ns=n1, ivsets=[[0], [2], [4], [7]], nxs=[0], modes=["linear"], ts=[0.25, 0.875], dist=[0.01, 1.5, 1e6, 1e12, 1e19])))
        T.append((5, "go", dict(k=1, types=t, lists=[[(1,), (0,)], [(0,), (1,)]], forms=None, ns=n1, ivsets=[[1], [3]], nxs=[0, 2], modes=["linear"] if not big else OUT + ["nearest"])))
        T.append((5, "go", dict(k=1, types=t, lists=[[(1,), (0,), (2,)]], forms=A + PA + I, ns=n1, ivsets=[[1], [6]], nxs=[0, 1], modes=["constant", "nearest"])))
    full2, full3 = idx(2, 1), idx(3, 1)
    for t in ("uu", "un", "nu", "nn"):
        if big or t in ("uu", "un"):
            T.append((9, "go", dict(k=1, types=t, lists=[list(p) for p in itertools.product(full2, repeat=2)], forms=A, ns=[[2, 3], [4, 2]], ivsets=[[0, 3]], nxs=[0], modes=["linear"])))
        T.append((7, "go", dict(k=1, types=t, lists=[full2, idx(2, 2)[::-1]], forms=None, ns=[[2, 2], [3, 4]], ivsets=[[0, 3], [2, 4]], nxs=[0, 3], modes=["linear"])))
        T.append((5, "go", dict(k=1, types=t, lists=[[(0, 0), (0, 1), (1, 0)]], forms=A + PA + I, ns=[[3, 4]], ivsets=[[0, 3], [2, 6]], nxs=[0, 2] if big else [2], modes=["constant", "nearest"])))
    prs3 = [list(p) for p in itertools.product(full3, repeat=2)]
    for i in range(4):
        T.append((9, "go", dict(k=1, types="uuu", lists=prs3[i::4], forms=A, ns=[[2, 3, 2]], ivsets=[[0, 3, 1]], nxs=[0], modes=["linear"], dist=[0.4])))
    trs = [list(p) for p in itertools.permutations(full2, 3)]
    for i in range(2):
        T.append((9, "go", dict(k=1, types="uu", lists=trs[i::2], forms=A, ns=[[3, 2]], ivsets=[[1, 2]], nxs=[2], modes=["linear"])))
    for t in itertools.product("un", repeat=3):
        t = "".join(t)
        T.append((6, "go", dict(k=1, types=t, lists=[full3[::-1]], forms=A + PT, ns=[[2, 3, 4], [3, 2, 2]], ivsets=[[0, 3, 1], [2, 4, 5]], nxs=[0], modes=["linear"])))
        T.append((6, "go", dict(k=1, types=t, lists=[[(0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 2, 1), (0, 0, 0)]], forms=I + PI if not big else None, ns=[[2, 3, 2]], ivsets=[[0, 3, 1]], nxs=[2] if not big else [0, 2], modes=["linear"])))
    jac4 = [(0, 0, 0, 1), (0, 1, 0, 0), (1, 0, 0, 0), (0, 0, 1, 0), (0, 0, 0, 0)]
    rot = [A, PA, I, PT, PI, PTI]
    for i, t in enumerate(itertools.product("un", repeat=4)):
        T.append((7, "go", dict(k=1, types="".join(t), lists=[jac4, idx(4, 1)[::-1]] if i % 5 == 0 or big else [jac4], forms=A if i % 5 == 0 else rot[i % 6], ns=[[2, 3, 2, 3]], ivsets=[[0, 3, 1, 2]], nxs=[0] if i % 6 < 3 or i % 5 == 0 else [2], modes=["linear"] if i % 2 or big else ["constant"], dist=[0.4])))
    jac5 = [tuple(int(i == j) for j in range(5)) for i in (4, 0, 2, 1, 3, 5)] + [(1, 0, 0, 1, 1), (0, 1, 2, 0, 0)]
    for i, t in enumerate(("uuuuu", "nnnnn", "unnun")):
        T.append((9, "go", dict(k=1, types=t, lists=[jac5], forms=[A, PA, I][i], ns=[[2, 2, 3, 2, 2]], ivsets=[[0, 3, 1, 2, 4]], nxs=[0, 0, 2][i : i + 1], modes=["linear"], dist=[0.4])))
    # ---- cubic
    L = [[o] for o in idx(1, 1)] + [list(p) for n in (2, 3) for p in itertools.product(idx(1, 1), repeat=n)]
    for part in (L[:5], L[5:10], L[10:]):
        T.append((8, "go", dict(k=3, types="u", lists=part, forms=A, ns=[[2], [3], [7]], ivsets=[[0], [2], [4], [7]], nxs=[0], modes=["linear"], ts=[0.25, 0.875], dist=[0.01, 1.5, 1e6, 1e12, 1e19])))
    for nx in (0, 2):
        T.append((17, "go", dict(k=3, types="u", lists=[[(1,), (0,)]], forms=None, ns=[[2], [4]], ivsets=[[1], [3]], nxs=[nx], modes=OUT + ["nearest"])))
    prs = [list(p) for p in itertools.product(full2, repeat=2)]
    for i in range(4):
        T.append((10, "go", dict(k=3, types="uu", lists=prs[i::4], forms=A, ns=[[2, 3], [5, 4]], ivsets=[[0, 3]], nxs=[0], modes=["linear"])))
    T.append((9, "go", dict(k=3, types="uu", lists=[[o] for o in full2], forms=A, ns=[[2, 3], [5, 4]], ivsets=[[2, 4]], nxs=[0], modes=["linear"])))
    for f in (A, I, PA, PT, PI, PTI):
        for nx in (0, 2):
            T.append((8, "go", dict(k=3, types="uu", lists=[[(0, 1), (0, 0), (1, 1), (1, 0)]], forms=f, ns=[[2, 3], [5, 4]], ivsets=[[2, 4]], nxs=[nx], modes=["linear"] + (["constant", "nearest"] if f in (A, PA) or big else []))))
    for L in [full3[::-1]] + ([full3, full3[3:] + full3[:3]] if big else []):
        T.append((14, "go", dict(k=3, types="uuu", lists=[L], forms=A, ns=[[2, 3, 4], [4, 2, 3]], ivsets=[[0, 3, 1], [2, 4, 5]], nxs=[0], modes=["linear"])))
    for f, nx in ((PT, 0), (I, 2), (PI, 2)) + (((PA, 2), (I, 0), (PTI, 2), (A, 2), (PA, 0)) if big else ()):
        T.append((14, "go", dict(k=3, types="uuu", lists=[[(0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, 0)]], forms=f, ns=[[2, 3, 4]], ivsets=[[0, 3, 1]], nxs=[nx], modes=["linear"])))
    for o in idx(4, 1) if big else ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 1)):
        T.append((15, "go", dict(k=3, types="uuuu", lists=[[o]], forms=A, ns=[[2, 3, 2, 4]], ivsets=[[0, 3, 1, 2]], nxs=[0], modes=["linear"], dist=[0.4])))
    T.append((20, "go", dict(k=3, types="uuuu", lists=[jac4], forms=A, ns=[[2, 3, 4, 2]], ivsets=[[0, 3, 1, 2]], nxs=[0], modes=["linear"], dist=[0.4])))
    return T
