"""The call forms of spline evaluation, all normalised to one result layout (N, [n_x], [n_j])."""

import itertools

import numpy as np
from numba import njit

from interpolation.splines import eval_cubic, eval_linear, eval_spline
from interpolation.splines import extrap_options as xto

XTO = {"constant": xto.CONSTANT, "linear": xto.LINEAR, "nearest": xto.NEAREST}

_drivers = {}


def point_driver(d, k, mode, diff, vv, alloc, ptype="array", entry="spline"):
    """Compiled loop calling the single-location form of the library on every row of P."""
    key = (d, k, mode, diff, vv, alloc, ptype, entry)
    if key in _drivers:
        return _drivers[key]
    if entry == "spline":
        call = (
            f"eval_spline(grid, C, p, out={{out}}, k={k}, diff={str(diff)!r}, "
            f"extrap_mode={mode!r})"
        )
        no_out = "None"
        alloc_call = call.format(out=no_out)
        in_call = call.format(out="o")
    else:
        fn = "eval_linear" if k == 1 else "eval_cubic"
        m = f", xto_{mode}" if mode else ""
        alloc_call = f"{fn}(grid, C, p{m})"
        in_call = f"{fn}(grid, C, p, o{m})"
    p = (
        "P[n]"
        if ptype == "array"
        else "(" + ", ".join(f"P[n, {i}]" for i in range(d)) + ",)"
    )
    L = ["def drive(grid, C, P, out):", "    for n in range(P.shape[0]):", f"        p = {p}"]
    if alloc:
        L.append(f"        r = {alloc_call}")
        if vv:
            L.append("        out[n] = r")
        elif diff is None:
            L.append("        out[n] = r")
        else:
            L += [f"        out[n, {j}] = r[{j}]" for j in range(len(diff))]
    else:
        L.append("        o = out[n]")
        L.append(f"        {in_call}")
    ctx = dict(eval_spline=eval_spline, eval_linear=eval_linear, eval_cubic=eval_cubic)
    for m, v in XTO.items():
        ctx[f"xto_{m}"] = v
    exec("\n".join(L), ctx)
    f = njit(ctx["drive"])
    _drivers[key] = f
    return f


def result_shape(N, C, d, diff):
    s = (N,)
    if C.ndim == d + 1:
        s += (C.shape[-1],)
    if diff is not None:
        s += (len(diff),)
    return s


def evaluate(grid, C, P, k, mode, diff=None, batch=True, alloc=True, ptype="array",
             entry="spline", fill=np.nan, out=None):
    """Evaluate at all rows of P through one call form.  In-place forms get an output full of `fill`."""
    d = len(grid)
    vv = C.ndim == d + 1
    N = P.shape[0]
    shape = result_shape(N, C, d, diff)
    if batch:
        if entry == "spline":
            f = eval_spline
            kw = dict(k=k, diff=str(diff), extrap_mode=mode)
            if alloc:
                return eval_spline(grid, C, P, out=None, **kw)
            out = np.full(shape, fill) if out is None else out
            eval_spline(grid, C, P, out=out, **kw)
            return out
        f = eval_linear if k == 1 else eval_cubic
        m = (XTO[mode],) if mode else ()
        if alloc:
            return f(grid, C, P, *m)
        out = np.full(shape, fill) if out is None else out
        f(grid, C, P, out, *m)
        return out
    out = np.full(shape, fill) if out is None else out
    point_driver(d, k, mode, diff, vv, alloc, ptype, entry)(grid, C, P, out)
    return out


def all_forms(vv, diff):
    """(batch, alloc, ptype) combinations that exist for this kind of data."""
    forms = [(True, True, "array"), (True, False, "array"), (False, True, "array"), (False, True, "tuple")]
    if vv or diff is not None:
        forms += [(False, False, "array"), (False, False, "tuple")]
    return forms


def make_grid(types, ns, ivs, kinds=None):
    """types: string of 'u'/'n'.  Returns (grid, list of node arrays)."""
    from .oracle import knots

    g, nodes = [], []
    for i, (t, n, (a, b)) in enumerate(zip(types, ns, ivs)):
        if t == "u":
            g.append((float(a), float(b), int(n)))
            nodes.append(a + (b - a) * (np.arange(n) / (n - 1.0)))
            nodes[-1][0], nodes[-1][-1] = a, b
        else:
            x = knots((kinds or ["square"] * 9)[i], n, a, b)
            g.append(x)
            nodes.append(x.copy())
    return tuple(g), nodes


def spec(grid):
    return [list(g) if isinstance(g, tuple) else np.asarray(g).tolist() for g in grid]
