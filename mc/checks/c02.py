"""Extrapolation options."""
import itertools

import numpy as np

from .. import oracle as O
from ..forms import all_forms, evaluate, make_grid, spec

from interpolation.splines import prefilter

PROPERTY = "C02"
RULE = (
    "spline order x option x grid shape x call form x entry point (general function, shorthand with option, "
    "shorthand default) x scalar/vector data, at the full product over dimensions of locations inside, on "
    "the boundary, one float beyond it and 0.25 ... 1e30 grid widths away on either side; expected value = "
    "tensor product of one-dimensional weights continued as the option says. Bounds: linear d=1..4 all "
    "uniform/nonuniform combinations, some of d=5, cubic d=1..4; nontrivial: locations outside in at least one dimension"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms"]
MODES = ["constant", "nearest", "linear"]


def locations(nodes, dist):
    mid = 0.5 * (nodes[0] + nodes[1])
    ins = [nodes[0], mid, nodes[-1]]
    if len(nodes) > 2:
        ins.append(nodes[1] + 0.75 * (nodes[2] - nodes[1]))
    return np.array(list(O.outside(nodes, dist)) + ins)


def weights(k, mode, grid, nodes, locs):
    if k == 1:
        Ws = [O.lin_weights(x, l, mode) for x, l in zip(nodes, locs)]
    else:
        Ws = [O.cub_weights(g[0], g[1], g[2], l, mode) for g, l in zip(grid, locs)]
    return Ws


def expected(V, Ws, mode, nodes, locs):
    exp, sc = O.tensor(V, Ws), O.scale(V, Ws)
    return exp, sc


def go(rec, k, types, mode, entries, ns, ivsets, dist, nxs, forms=None):
    d = len(types)
    forms = [tuple(f) for f in forms] if forms else None
    for ns_ in ns:
        for s, ivs in enumerate(ivsets):
            ivs = [tuple(O.INTERVALS[j]) for j in ivs]
            kinds = [O.SPACINGS[(1 + i + s) % len(O.SPACINGS)] for i in range(d)]
            grid, nodes = make_grid(types, ns_, ivs, kinds)
            locs = [locations(x, dist) for x in nodes]
            P = O.product_points(locs)
            out = [(l < x[0]) | (l > x[-1]) for l, x in zip(locs, nodes)]
            any_out = out[0]
            for o in out[1:]:
                any_out = np.logical_or.outer(any_out, o).reshape(-1)
            rec.states += len(P)
            rec.nontrivial += int(any_out.sum())
            for nx in nxs:
                V = O.generic(tuple(ns_) + ((nx,) if nx else ()), 2 + nx)
                C = V if k == 1 else prefilter(grid, V, out=None, k=3)
                m = mode or "linear"
                Ws = weights(k, m, grid, nodes, locs)
                exp, sc = O.tensor(V, Ws), O.scale(V, Ws)
                for entry in entries:
                    for f in forms or all_forms(nx > 0, None):
                        if f == (False, False, "array") and not nx:
                            continue
                        for fill in (np.nan, 7.0) if not f[1] else (np.nan,):
                            obs = evaluate(grid, C, P, k, mode, None, *f, entry=entry, fill=fill)
                            rec.transitions += len(P)
                            rec.traces += 1
                            rec.outcome(obs)
                            bad = O.mismatch(obs, exp, sc)
                            if f[0] and bad is None:
                                w = O.walk(len(P))
                                obs_w = evaluate(grid, C, P[w], k, mode, None, *f, entry=entry, fill=fill)
                                rec.transitions += len(w)
                                if O.mismatch(obs_w, exp[w], sc[w]) is not None:
                                    rec.violate(f"order {k} option {m} grid {spec(grid)}: result depends on the order of the batch", key="order")
                                    return
                            if bad is None and m == "constant" and np.any(obs[any_out] != 0):
                                bad = (int(np.argwhere(any_out)[np.argwhere(obs[any_out] != 0)[0][0]][0]),)
                            if bad is not None:
                                num = isinstance(bad[0], int)
                                rec.violate(
                                    f"order {k} option {mode or 'default'} entry {entry} form(batch,alloc,type)={f} "
                                    f"grid {spec(grid)} at {P[bad[0]].tolist() if num else bad}: got "
                                    f"{obs[bad] if num else obs.shape}, expected {exp[bad] if num else exp.shape}",
                                    key=f"{k}-{mode}-{entry}", grid=spec(grid), values=V,
                                )
                                return
            rec.sample(dict(order=k, option=m, grid=spec(grid), location=P[0].tolist(), expected=repr(exp[0])))


def tasks(tier):
    T = []
    big = tier == "thorough"
    D1 = [0.0, 1e-9, 0.25, 1.0, 3.0, 50.0, 1e3, 1e6, 1e9, 1e12, 1e15, 1e19, 1e30]
    D2 = [0.0, 0.25, 3.0, 1e4, 1e10, 1e20]
    D3 = [0.0, 0.3, 1e4, 1e19]
    D4 = [0.4, 1e12] if not big else D3
    fast = [(True, True, "array"), (True, False, "array"), (False, True, "array"), (False, True, "tuple"), (False, False, "array")]
    for mode in MODES + [None]:
        ent = ["spline", "short"] if mode else ["short"]
        for t in "un":
            T.append((3, "go", dict(k=1, types=t, mode=mode, entries=ent, ns=[[2], [3], [6], [17]], ivsets=[[i] for i in range(len(O.INTERVALS))], dist=D1, nxs=[0, 1, 2] if big else [0, 2])))
        for t in ("uu", "un", "nu", "nn"):
            T.append((5, "go", dict(k=1, types=t, mode=mode, entries=ent, ns=[[2, 2], [2, 4], [5, 3]], ivsets=[[0, 1], [2, 3], [4, 6], [5, 7]], dist=D2, nxs=[0, 3])))
        for t in itertools.product("un", repeat=3):
            t = "".join(t)
            full = big or (mode and t in ("uuu", "unn"))
            T.append((6, "go", dict(k=1, types=t, mode=mode, entries=ent if full else ent[:1], ns=[[2, 3, 4]], ivsets=[[0, 3, 1], [2, 4, 5]], dist=D3, nxs=[0, 2] if full else [0], forms=None if full else fast[:3])))
        for i, t in enumerate(itertools.product("un", repeat=4)):
            if mode or i in (0, 6):  # call forms in turn, all of them for every option
                fs = [[fast[0], fast[2]], [fast[1], fast[3]], [fast[0], fast[4]]][i % 3] if not big else fast
                T.append((5, "go", dict(k=1, types="".join(t), mode=mode, entries=ent[:1], ns=[[2, 3, 2, 3]], ivsets=[[0, 3, 1, 2]], dist=D4, nxs=[0] if i % 3 < 2 else [2], forms=fs)))
        for i, t in enumerate(("uuuuu", "nnnnn", "ununu", "nuuun") if mode else ("uuuuu",)):
            T.append((6, "go", dict(k=1, types=t, mode=mode, entries=ent[:1], ns=[[2, 3, 2, 2, 3]], ivsets=[[0, 3, 1, 2, 4]], dist=[0.4] if not big else D4, nxs=[0, 2] if big else [0], forms=fast[:1] + (fast[2:3] if i < 2 else fast[1:2]))))
        for e in ent:
            T.append((7, "go", dict(k=3, types="u", mode=mode, entries=[e], ns=[[2], [3], [4], [20]] + ([[7]] if big else []), ivsets=[[i] for i in range(0 if big or e == "spline" else 6, len(O.INTERVALS))], dist=D1, nxs=[0, 1, 2] if big else [0, 2])))
            T.append((8, "go", dict(k=3, types="uu", mode=mode, entries=[e], ns=[[2, 3], [5, 6]], ivsets=[[0, 1], [2, 3]] + ([[4, 6], [5, 7]] if big or e == "spline" else []), dist=D2, nxs=[0, 3] if big or e == "spline" else [0], forms=None if big or e == "spline" else fast[:3])))
            for nx in (0, 2):
                fs = None if big else [fast[0], fast[2]] if nx == 0 else [fast[1], fast[4]]
                if big or e == "spline" or (mode is None and nx == 0):
                    T.append((9, "go", dict(k=3, types="uuu", mode=mode, entries=[e], ns=[[2, 3, 4], [3, 2, 2]], ivsets=[[0, 3, 1], [2, 4, 5]], dist=D3, nxs=[nx], forms=fs)))
        for f in fast[:3] if big else fast[:1] + (fast[2:3] if mode == "nearest" else []) if mode else []:
            T.append((12, "go", dict(k=3, types="uuuu", mode=mode, entries=ent[:1], ns=[[2, 3, 2, 4]], ivsets=[[0, 3, 1, 2]], dist=D4, nxs=[0], forms=[f])))
    return T
