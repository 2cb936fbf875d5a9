"""Purity and containment."""
import itertools

import numpy as np

from .. import oracle as O
from ..forms import all_forms, evaluate, make_grid, result_shape, spec

from interpolation import interp
from interpolation.multilinear.mlinterp import mlinterp
from interpolation.splines import filter_cubic, prefilter

PROPERTY = "C06"
RULE = (
    "order x option x grid shape x call form x derivatives, at the product of locations inside, outside, "
    "+-1e300, +-2^31, +-2^63, +-inf and NaN: inputs compared bytewise before/after, output embedded in guard "
    "cells, coefficients embedded in NaN and in 1e30 padding (both results bitwise equal, and equal to a "
    "repetition); every cell of the grid with all coefficients off its stencil poisoned by +-1e30. Same for "
    "filtering, mlinterp and interp. Bounds: d=1..3 (d=4 linear); nontrivial: executions with guard or poison"
)
ASSUMPTIONS = ["equality of repeated and of differently padded runs is exact (NaN equals NaN)"]

NS = {1: (4,), 2: (3, 4), 3: (2, 3, 4), 4: (2, 3, 2, 2)}
IVS = [(0.0, 1.0), (5.0, 15.0), (-3.5, -1.25), (0.1, 0.7)]
WILD = [-np.inf, -1e300, -(2.0**63), -(2.0**31) - 1, 2.0**31, 2.0**63, 1e300, np.inf, np.nan]


def embed(A, pad, how, dtype=float):
    """A copy of A inside a buffer full of `pad`: in a flat one (contiguous), or in a larger box (strided)."""
    A = np.asarray(A)
    if how == "flat":
        g = 4 * max(16, A.size)
        buf = np.full(A.size + 2 * g, pad, dtype)
        V = buf[g : g + A.size].reshape(A.shape)
    else:
        g = 6
        buf = np.full(tuple(s + 2 * g for s in A.shape), pad, dtype)
        V = buf[tuple(slice(g, g + s) for s in A.shape)]
    V[...] = A
    return buf, V


def guarded(buf, view, pad):
    """True if everything in buf that is not in view still holds pad."""
    c = buf.copy()
    off = (view.__array_interface__["data"][0] - buf.__array_interface__["data"][0]) // buf.itemsize
    w = np.lib.stride_tricks.as_strided(c.reshape(-1)[off:], view.shape, view.strides)
    if view.size:
        w[...] = pad
    return np.array_equal(c, np.full_like(c, pad), equal_nan=True)


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def snapshot(*xs):
    return [x.tobytes() if isinstance(x, np.ndarray) else repr(x) for g in xs for x in (g if isinstance(g, tuple) else (g,))]


def locations(nodes, d):
    per = []
    for x in nodes:
        ins = [x[0], 0.5 * (x[0] + x[1]), x[-1], x[-2] + 0.3 * (x[-1] - x[-2])]
        far = list(O.outside(x, (0.0, 0.7, 1e5)))
        if d == 1:
            per.append(ins + far + WILD)
        elif d == 2:
            per.append(ins[1:3] + far[1::3] + WILD)
        else:
            per.append(ins[1:2] + far[1:2] + [-np.inf, 1e300, np.nan, 2.0**63])
    return O.product_points(per)


def contain(rec, k, types, modes, diffs, nxs, forms=None):
    d = len(types)
    forms = [tuple(f) for f in forms] if forms else None
    diffs = [None if D is None else tuple(tuple(o) for o in D) for D in diffs]
    grid, nodes = make_grid(types, NS[d], IVS[:d], ["square", "alt", "exp", "tight"])
    for nx in nxs:
        V = O.generic(NS[d] + ((nx,) if nx else ()), 5)
        C0 = V if k == 1 else prefilter(grid, V, out=None, k=3)
        P0 = locations(nodes, d)
        for mode in modes:
            for diff in diffs:
                for f in forms or all_forms(nx > 0, diff):
                    what = f"order {k} grid {types} option {mode} derivatives {diff} vector {nx} form {f}"
                    results = []
                    for how, pad in (("flat", np.nan), ("flat", 1e30), ("flat", np.nan), ("box", np.nan), ("box", 1e30)):
                        if how == "box" and f not in ((True, True, "array"), (False, True, "array"), (False, False, "array")):
                            continue
                        if how == "box" and d > 2:
                            continue
                        cb, C = embed(C0, pad, how)
                        pb, P = embed(P0, pad, "flat")
                        shape = result_shape(len(P), C, d, diff)
                        ob, out = embed(np.full(shape, 3.25), -77.5, "flat")
                        before = snapshot(grid, C, P)
                        r = evaluate(grid, C, P, k, mode, diff, *f, out=out)
                        rec.states += len(P)
                        rec.nontrivial += len(P)
                        rec.transitions += len(P)
                        rec.traces += 1
                        if snapshot(grid, C, P) != before or not guarded(cb, C, pad) or not guarded(pb, P, pad):
                            rec.violate(f"{what}: an input array was modified", key="input")
                            return
                        if not guarded(ob, out, -77.5):
                            rec.violate(f"{what}: wrote outside of the output array", key="guard")
                            return
                        results.append((how, np.array(r)))
                    rec.outcome(results[0][1])
                    for how, r in results[1:]:
                        ref = [q for h, q in results if h == how][0]
                        if not same(r, ref):
                            i = np.argwhere(~((r == ref) | (np.isnan(r) & np.isnan(ref))))[0]
                            rec.violate(
                                f"{what}: result at {P0[i[0]].tolist()} depends on memory outside the coefficient array or "
                                f"differs between repetitions: {ref[tuple(i)]} / {r[tuple(i)]}", key="outside")
                            return
    rec.sample(dict(order=k, grid=spec(grid), option=modes[0], locations=len(P0), wild=[repr(w) for w in WILD]))


def stencil(k, nodes, x):
    """Coefficients the interpolant at x may depend on (both cells at a node)."""
    n = len(nodes)
    p = min(max(x, nodes[0]), nodes[-1])
    i = 0
    while i < n - 2 and p > nodes[i + 1]:
        i += 1
    cells = [i]
    h = nodes[i + 1] - nodes[i]
    if abs(p - nodes[i]) < 1e-7 * h and i > 0:
        cells.append(i - 1)
    if abs(p - nodes[i + 1]) < 1e-7 * h and i < n - 2:
        cells.append(i + 1)
    out = set()
    for c in cells:
        out |= set(range(c, c + 2 if k == 1 else c + 4))
    return tuple(sorted(out))


def local(rec, k, types, modes, diffs, nxs, forms):
    d = len(types)
    forms = [tuple(f) for f in forms]
    diffs = [None if D is None else tuple(tuple(o) for o in D) for D in diffs]
    ns = {1: (7,), 2: (5, 6), 3: (4, 3, 5), 4: (3, 2, 3, 2)}[d]
    grid, nodes = make_grid(types, ns, IVS[:d], ["square", "alt", "exp", "tight"])
    per = []
    for x in nodes:
        ls = list(O.inside(x, (0.25, 0.75) if d < 3 else (0.4,))) + list(O.outside(x, (0.0, 0.5, 1e4) if d < 3 else (0.5,)))
        groups = {}
        for l in ls:
            groups.setdefault(stencil(k, x, l), []).append(l)
        per.append(groups)
    for nx in nxs:
        V = O.generic(ns + ((nx,) if nx else ()), 5)
        C0 = V if k == 1 else prefilter(grid, V, out=None, k=3)
        for combo in itertools.product(*[list(g.items()) for g in per]):
            P = O.product_points([c[1] for c in combo])
            mask = np.ones(C0.shape, bool)
            mask[np.ix_(*[c[0] for c in combo], *([range(nx)] if nx else []))] = False
            for mode in modes:
                for diff in diffs:
                    for f in forms:
                        ref = evaluate(grid, C0, P, k, mode, diff, *f)
                        for s in (1e30, -1e30):
                            C = C0.copy()
                            C[mask] = s
                            r = evaluate(grid, C, P, k, mode, diff, *f)
                            rec.states += len(P)
                            rec.nontrivial += len(P)
                            rec.transitions += len(P)
                            rec.traces += 1
                            sc = np.abs(ref) + 1e-9 + np.abs(ref).max()
                            bad = O.mismatch(r, ref, sc, 1e-7)
                            if bad is not None:
                                rec.violate(
                                    f"order {k} grid {spec(grid)} option {mode} derivatives {diff} vector {nx} form {f}: result at "
                                    f"{P[bad[0]].tolist()} depends on coefficients outside its cell", key="local")
                                return
    rec.sample(dict(order=k, grid=spec(grid), stencils=[str(list(g)[:3]) for g in per]))


def filtering(rec, d, nxs, ns):
    for nn in ns:
        nn = tuple(nn)
        grid, nodes = make_grid("u" * d, nn, IVS[:d])
        for nx in nxs:
            V0 = O.generic(nn + ((nx,) if nx else ()), 7)
            shape = tuple(n + 2 for n in nn) + ((nx,) if nx else ())
            res = []
            for how, pad in (("flat", np.nan), ("flat", 1e30), ("flat", np.nan), ("box", np.nan), ("box", 1e30)):
                for fn in ("alloc", "filter", "prefilter"):
                    if how == "box" and fn == "prefilter":
                        continue
                    vb, V = embed(V0, pad, how)
                    ob, out = embed(np.full(shape, np.nan), -77.5, how)
                    before = snapshot(grid, V)
                    if fn == "alloc":
                        r = prefilter(grid, V, out=None, k=3)
                    elif fn == "filter":
                        filter_cubic(grid, V, out)
                        r = out
                    else:
                        prefilter(grid, V, out=out, k=3)
                        r = out
                    rec.states += 1
                    rec.nontrivial += 1
                    rec.transitions += 1
                    rec.traces += 1
                    if snapshot(grid, V) != before or not guarded(vb, V, pad):
                        rec.violate(f"filtering {nn} vector {nx}: values modified", key="input")
                        return
                    if not guarded(ob, out, -77.5):
                        rec.violate(f"filtering {nn} vector {nx}: wrote outside of the output", key="guard")
                        return
                    res.append((how, np.array(r)))
            rec.outcome(res[0][1])
            for how, r in res[1:]:
                ref = res[0][1]
                exact = how == "flat"
                if (exact and not same(r, ref)) or O.mismatch(r, ref, np.abs(ref).max()) is not None:
                    rec.violate(f"filtering {nn} vector {nx}: result depends on memory outside the values or on repetition", key="outside")
                    return
    rec.sample(dict(filter=d, shapes=[list(n) for n in ns][:3]))


def simple(rec, d):
    """mlinterp and interp."""
    for types in itertools.product("un", repeat=d):
        types = "".join(types)
        grid, nodes = make_grid(types, NS[d], IVS[:d], ["square", "alt", "exp", "tight"])
        V0 = O.generic(NS[d], 5)
        P0 = locations(nodes, d)
        rows = list(range(0, len(P0), max(1, len(P0) // 40)))
        for fn in ("mlinterp", "mlinterp-tuple") + (("interp", "interp-one", "interp-numbers") if types == "n" * d else ()):
            res = []
            for how, pad in (("flat", np.nan), ("flat", 1e30), ("flat", np.nan)):
                vb, V = embed(V0, pad, how)
                pb, P = embed(P0, pad, how)
                before = snapshot(grid, V, P)
                if fn == "mlinterp":
                    r = mlinterp(grid, V, P)
                elif fn == "mlinterp-tuple":
                    r = np.array([mlinterp(grid, V, tuple(float(x) for x in P[n])) for n in rows])
                elif fn == "interp":
                    r = interp(*grid, V, P)
                elif fn == "interp-one":
                    r = np.array([interp(*grid, V, P[n]) for n in rows])
                else:
                    r = np.array([interp(*grid, V, *[float(x) for x in P[n]]) for n in rows])
                rec.states += len(P)
                rec.nontrivial += len(P)
                rec.transitions += len(r)
                rec.traces += 1
                if snapshot(grid, V, P) != before or not guarded(vb, V, pad) or not guarded(pb, P, pad):
                    rec.violate(f"{fn} {types}: an input array was modified", key="input")
                    return
                res.append(r)
            rec.outcome(res[0])
            if not (same(res[0], res[1]) and same(res[0], res[2])):
                rec.violate(f"{fn} {types}: result depends on memory outside the values or on repetition", key="outside")
                return
        # locality
        ns = {1: (7,), 2: (5, 6), 3: (4, 3, 5)}[d]
        grid, nodes = make_grid(types, ns, IVS[:d], ["square", "alt", "exp", "tight"])
        per = []
        for x in nodes:
            groups = {}
            for l in list(O.inside(x, (0.4,))) + list(O.outside(x, (0.5,))):
                groups.setdefault(stencil(1, x, l), []).append(l)
            per.append(groups)
        V0 = O.generic(ns, 5)
        for combo in itertools.product(*[list(g.items()) for g in per]):
            P = O.product_points([c[1] for c in combo])
            mask = np.ones(V0.shape, bool)
            mask[np.ix_(*[c[0] for c in combo])] = False
            V = V0.copy()
            V[mask] = 1e30
            for fn in [mlinterp] + ([interp] if types == "n" * d else []):
                if fn is mlinterp:
                    a, b = mlinterp(grid, V0, P), mlinterp(grid, V, P)
                else:
                    a, b = interp(*grid, V0, P), interp(*grid, V, P)
                rec.states += len(P)
                rec.nontrivial += len(P)
                rec.transitions += len(P)
                rec.traces += 1
                bad = O.mismatch(b, a, np.abs(a) + np.abs(a).max(), 1e-7)
                if bad is not None:
                    rec.violate(f"{types}: value at {P[bad[0]].tolist()} depends on node values outside its cell", key="local")
                    return


def tasks(tier):
    T = []
    big = tier == "thorough"
    M = ["linear", "nearest", "constant"]
    J = {1: [[1], [0]], 2: [[0, 1], [1, 0], [0, 0]], 3: [[0, 0, 1], [1, 0, 0], [0, 1, 0]]}
    fa = [(True, True, "array"), (True, False, "array"), (False, True, "array"), (False, True, "tuple")]
    for t in ("u", "n"):
        T.append((6, "contain", dict(k=1, types=t, modes=M, diffs=[None], nxs=[0, 2])))
        T.append((5, "contain", dict(k=1, types=t, modes=M, diffs=[J[1]], nxs=[0, 2] if big else [2])))
    for t in ("uu", "un", "nu", "nn"):
        for m in M:
            T.append((6, "contain", dict(k=1, types=t, modes=[m], diffs=[None], nxs=[0, 2])))
        T.append((6, "contain", dict(k=1, types=t, modes=M if big else ["linear"], diffs=[J[2]], nxs=[0, 2] if big else [2])))
    for t in itertools.product("un", repeat=3):
        t = "".join(t)
        T.append((7, "contain", dict(k=1, types=t, modes=M if big or t in ("uuu", "nnn") else ["linear"], diffs=[None], nxs=[0], forms=fa[:3])))
    T.append((7, "contain", dict(k=1, types="uuuu", modes=["linear"], diffs=[None], nxs=[0], forms=fa[1:3])))
    T.append((7, "contain", dict(k=1, types="nnnn", modes=["linear"], diffs=[None], nxs=[0], forms=fa[1:3])))
    for m in M:
        T.append((9, "contain", dict(k=3, types="u", modes=[m], diffs=[None], nxs=[0, 2])))
        T.append((9, "contain", dict(k=3, types="uu", modes=[m], diffs=[None], nxs=[0] if not big else [0, 2], forms=None if big else fa)))
        T.append((9, "contain", dict(k=3, types="uuu", modes=[m], diffs=[None], nxs=[0], forms=fa[1:3])))
    T.append((8, "contain", dict(k=3, types="u", modes=M if big else ["linear"], diffs=[J[1]], nxs=[0, 2])))
    T.append((9, "contain", dict(k=3, types="uu", modes=["linear"], diffs=[J[2]], nxs=[2], forms=[fa[1], (False, False, "array")])))
    for k, types in ((1, "u"), (1, "n"), (1, "un"), (1, "nn"), (1, "uu"), (1, "nu"), (3, "u"), (3, "uu")):
        d = len(types)
        T.append((8, "local", dict(k=k, types=types, modes=["linear", "nearest"], diffs=[None, J[d]] if k == 1 or d == 1 or big else [None], nxs=[0, 2] if d == 1 or big else [0], forms=fa[:1] + (fa[2:3] if d == 1 or big else []))))
    for t in itertools.product("un", repeat=3):
        T.append((7, "local", dict(k=1, types="".join(t), modes=["linear"], diffs=[None], nxs=[0], forms=fa[:1])))
    T.append((10, "local", dict(k=3, types="uuu", modes=["linear"], diffs=[None], nxs=[0], forms=fa[:1])))
    T.append((6, "local", dict(k=1, types="uuuu", modes=["linear"], diffs=[None], nxs=[0], forms=fa[:1])))
    T.append((4, "filtering", dict(d=1, nxs=[0, 1, 3], ns=[[n] for n in list(range(2, 12)) + [17, 40]])))
    T.append((6, "filtering", dict(d=2, nxs=[0, 2], ns=list(itertools.product(range(2, 5), repeat=2)))))
    T.append((8, "filtering", dict(d=3, nxs=[0, 2], ns=[[2, 3, 4], [4, 2, 2], [3, 3, 2]])))
    T.append((9, "filtering", dict(d=4, nxs=[0] if not big else [0, 2], ns=[[2, 3, 4, 2]])))
    for d in (1, 2, 3):
        T.append((2 + 2 * d, "simple", dict(d=d)))
    return T
