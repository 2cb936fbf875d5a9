"""All call forms agree: batch sizes, memory layouts, in-place targets, value types, entry points."""
import itertools

import numpy as np
from numba import njit

from .. import oracle as O
from ..forms import XTO, all_forms, evaluate, make_grid, spec

from interpolation.splines import eval_cubic, eval_linear, eval_spline, prefilter

PROPERTY = "C05"
RULE = (
    "batch sizes 0..5000, every single and pairwise deviation of memory layout / read-only flag of values, "
    "locations and output from the plain case, value dtypes, previous content of the output, layouts of node "
    "arrays, one location as array / tuple / strided row from Python and from compiled code, general function "
    "and shorthands, derivative requests in every form; for linear and cubic order, scalar and vector data, d=1..3; every result compared with "
    "the reference interpolant and its documented shape; nontrivial: forms other than the plain one"
)
ASSUMPTIONS = ["results are compared up to 1e-9 of the magnitude of the summed terms"]

NS = {1: (5,), 2: (3, 4), 3: (2, 4, 3), 4: (2, 3, 2, 2)}
IVS = [(0.0, 1.0), (5.0, 15.0), (-3.5, -1.25), (0.1, 0.7)]


def case(k, types, nx, integer=False):
    d = len(types)
    grid, nodes = make_grid(types, NS[d], IVS[:d], ["square", "alt", "exp", "tight"])
    V = O.generic(NS[d] + ((nx,) if nx else ()), 3)
    if integer:
        V = np.round(10 * V)
    C = V if k == 1 else prefilter(grid, V, out=None, k=3)
    return grid, nodes, V, C


def pts(nodes, N):
    """N locations in general position, mostly inside and some outside."""
    d = len(nodes)
    u = np.mod(np.outer(np.arange(1, N + 1), np.sqrt([2.0, 3.0, 5.0, 7.0][:d])), 1.0) * 1.3 - 0.15
    a = np.array([x[0] for x in nodes])
    b = np.array([x[-1] for x in nodes])
    return a + (b - a) * u


def expect(k, grid, nodes, V, P, mode="linear"):
    d = len(grid)
    N = len(P)
    exp = np.asarray(V, float)
    # point by point: contract the node axes with the weights of that location
    W = []
    for i in range(d):
        if k == 1:
            W.append(O.lin_weights(nodes[i], P[:, i], mode))
        else:
            W.append(O.cub_weights(grid[i][0], grid[i][1], grid[i][2], P[:, i], mode))
    letters = "abcd"[:d]
    ein = ",".join("n" + c for c in letters) + "," + letters + ("x" if exp.ndim > d else "")
    out = np.einsum(ein + "->n" + ("x" if exp.ndim > d else ""), *W, exp)
    sc = np.abs(V).max()
    s = np.ones(N)
    for w in W:
        s = s * np.abs(w).sum(1)
    sc = s * sc
    return out, (sc[:, None] if exp.ndim > d else sc) + 1e-12


def check(rec, what, obs, exp, sc, shape=None):
    obs = np.asarray(obs)
    rec.transitions += max(1, obs.shape[0] if obs.ndim else 1)
    rec.traces += 1
    rec.outcome(obs)
    if obs.shape != exp.shape:
        rec.violate(f"{what}: shape {obs.shape}, expected {exp.shape}", key="shape")
        return False
    bad = O.mismatch(obs, exp, np.broadcast_to(sc, exp.shape))
    if bad is not None:
        rec.violate(f"{what}: entry {bad} is {obs[bad]}, expected {exp[bad]}", key="value")
        return False
    return True


def batch(k, grid, C, P, out=None, mode="linear", entry="spline"):
    if entry == "spline":
        return eval_spline(grid, C, P, out=out, k=k, diff="None", extrap_mode=mode)
    f = eval_linear if k == 1 else eval_cubic
    a = (out,) if out is not None else ()
    return f(grid, C, P, *a, *((XTO[mode],) if entry == "short" else ()))


# ------------------------------------------------------------------ batch sizes
def sizes(rec, k, types, nx, Ns):
    grid, nodes, V, C = case(k, types, nx)
    for N in Ns:
        P = pts(nodes, N)
        exp, sc = expect(k, grid, nodes, V, P)
        rec.states += 4
        rec.nontrivial += 4
        for entry in ("spline", "default"):
            r = batch(k, grid, C, P, entry=entry)
            if not check(rec, f"order {k} grid {types} vector {nx} batch of {N} ({entry})", r, exp, sc):
                return
            for fill in (np.nan, 1e308):
                out = np.full(exp.shape, fill)
                batch(k, grid, C, P, out=out, entry=entry)
                if not check(rec, f"order {k} grid {types} vector {nx} batch of {N} in place over {fill} ({entry})", out, exp, sc):
                    return
    rec.sample(dict(order=k, grid=spec(grid), batch_sizes=list(Ns), vector=nx))


# ------------------------------------------------------------------ layouts
def as_layout(A, how, fill=None):
    """A copy of A (or an array of its shape full of `fill`) stored in the requested way."""
    if fill is not None:
        A = np.full(A.shape, fill)
    if how.startswith("C"):
        R = np.array(A, order="C")
    elif how.startswith("F"):
        R = np.array(A, order="F")
    elif how.startswith("S"):  # every second entry of a larger array, in every dimension
        big = np.full(tuple(2 * s + 1 for s in A.shape), 9e99)
        R = big[tuple(slice(1, None, 2) for _ in A.shape)]
        R[...] = A
    elif how.startswith("R"):  # reversed: negative strides
        R = np.array(A[tuple(slice(None, None, -1) for _ in A.shape)], order="C")
        R = R[tuple(slice(None, None, -1) for _ in A.shape)]
    elif how.startswith("L"):  # last dimension of a larger array
        big = np.full(A.shape[:-1] + (A.shape[-1] + 3,), 9e99)
        R = big[..., 1 : 1 + A.shape[-1]]
        R[...] = A
    else:
        raise ValueError(how)
    if how.endswith("ro"):
        R.flags.writeable = False
    assert R.shape == A.shape
    return R


VLAY = ["C", "F", "S", "R", "L", "Cro", "Fro", "Sro"]
PLAY = ["C", "F", "S", "R", "L", "Cro", "Fro", "Sro"]
OLAY = ["C", "F", "S", "R", "L"]


def layouts(rec, k, types, nx, combos):
    grid, nodes, V, C = case(k, types, nx)
    P = pts(nodes, 7)
    exp, sc = expect(k, grid, nodes, V, P)
    for vl, pl, ol in combos:
        Cv, Pv = as_layout(C, vl), as_layout(P, pl)
        rec.states += 1
        rec.nontrivial += (vl, pl, ol) not in (("C", "C", None), ("C", "C", "C"))
        what = f"order {k} grid {types} vector {nx} layouts values={vl} locations={pl} output={ol}"
        if ol is None:
            r = batch(k, grid, Cv, Pv)
        else:
            r = as_layout(exp, ol, fill=np.nan)
            batch(k, grid, Cv, Pv, out=r)
        if not check(rec, what, r, exp, sc):
            return
        if not (np.array_equal(Cv, C) and np.array_equal(Pv, P)):
            rec.violate(f"{what}: inputs modified", key="inputs")
            return
    rec.sample(dict(order=k, grid=spec(grid), layouts=combos[:3]))


def one_off():
    c = [("C", "C", None), ("C", "C", "C")]
    c += [(v, "C", None) for v in VLAY[1:]] + [("C", p, None) for p in PLAY[1:]] + [("C", "C", o) for o in OLAY[1:]]
    return c


def pairs_():
    c = [(v, p, None) for v in VLAY[1:] for p in PLAY[1:]]
    c += [(v, "C", o) for v in VLAY[1:] for o in OLAY[1:]] + [("C", p, o) for p in PLAY[1:] for o in OLAY[1:]]
    return c


def gridlayouts(rec, d):
    """Node arrays stored in any way; uniform triples of Python or NumPy numbers."""
    types = "n" * d
    grid, nodes, V, C = case(1, types, 0)
    P = pts(nodes, 9)
    exp, sc = expect(1, grid, nodes, V, P)
    for how in itertools.product(["C", "S", "R", "Cro"], repeat=d) if d < 3 else [("S", "C", "R"), ("Cro", "S", "C"), ("R", "R", "Cro")]:
        g = tuple(as_layout(x, h) for x, h in zip(nodes, how))
        rec.states += 1
        rec.nontrivial += 1
        if not check(rec, f"node arrays stored as {how}", batch(1, g, V, P), exp, sc):
            return
        if any(not np.array_equal(a, b) for a, b in zip(g, nodes)):
            rec.violate("nodes modified", key="inputs")
    for k in (1, 3):
        grid, nodes, V, C = case(k, "u" * d, 0)
        exp, sc = expect(k, grid, nodes, V, P_ := pts(nodes, 9))
        g = tuple((np.float64(a), np.float64(b), np.int64(n)) for a, b, n in grid)
        rec.states += 1
        rec.nontrivial += 1
        if not check(rec, f"uniform grid of NumPy numbers, order {k}", batch(k, g, C, P_), exp, sc):
            return


def dtypes(rec, k, types, nx):
    """Integer and single precision node values."""
    grid, nodes, V, _ = case(k, types, nx, integer=True)
    P = pts(nodes, 7)
    exp, sc = expect(k, grid, nodes, V, P)
    for dt in ("int64", "int32", "float32", "float64", "int16", "uint8") if k == 1 else ("int64", "int32", "float32"):
        Vd = (V + (128 if dt == "uint8" else 0)).astype(dt)
        e, s = expect(k, grid, nodes, Vd.astype(float), P)
        rec.states += 1
        rec.nontrivial += 1
        Cd = Vd if k == 1 else prefilter(grid, Vd, out=None, k=3)
        if not check(rec, f"order {k} grid {types} vector {nx} values of type {dt}", batch(k, grid, Cd, P), e, s):
            return
        out = np.full(e.shape, np.nan)
        batch(k, grid, Cd, P, out=out)
        if not check(rec, f"order {k} grid {types} vector {nx} values of type {dt} in place", out, e, s):
            return
        if k == 1 and dt in ("int64", "float32"):
            for n in range(len(P)):
                r = batch(k, grid, Cd, P[n])
                if not check(rec, f"order {k} grid {types} vector {nx} values of type {dt} one location", r, e[n], s[n]):
                    return


# ------------------------------------------------------------------ one location
def compiled(k, d, nx, entry, ptype, inplace, mode):
    call = {
        "spline": f"eval_spline(grid, C, {{p}}, out={{o}}, k={k}, diff='None', extrap_mode={mode!r})",
        "short": f"{'eval_linear' if k == 1 else 'eval_cubic'}(grid, C, {{p}}{{o2}}, xto)",
        "default": f"{'eval_linear' if k == 1 else 'eval_cubic'}(grid, C, {{p}}{{o2}})",
    }[entry]
    p = "p" if ptype != "tuple" else "(" + ", ".join(f"p[{i}]" for i in range(d)) + ",)"
    ctx = dict(eval_spline=eval_spline, eval_linear=eval_linear, eval_cubic=eval_cubic, xto=XTO[mode])
    if inplace:
        src = f"def f(grid, C, p, out):\n    {call.format(p=p, o='out', o2=', out')}\n"
    else:
        src = f"def f(grid, C, p, out):\n    return {call.format(p=p, o='None', o2='')}\n"
    exec(src, ctx)
    return njit(ctx["f"])


def single(rec, k, types, nx, modes, full):
    grid, nodes, V, C = case(k, types, nx)
    d = len(types)
    P = pts(nodes, 5)
    for mode in modes:
        exp, sc = expect(k, grid, nodes, V, P, mode)
        entries = ["spline", "short"] + (["default"] if mode == "linear" else [])
        for entry in entries:
            for ptype in ("array", "tuple", "strided", "readonly"):
                if not full and ptype in ("strided", "readonly") and entry != "spline":
                    continue
                for how in ("python", "compiled"):
                    if not full and how == "compiled" and ptype in ("strided", "readonly"):
                        continue
                    for inplace in (False, True):
                        if inplace and not nx:
                            continue
                        fn = compiled(k, d, nx, entry, ptype, inplace, mode) if how == "compiled" else None
                        for n in range(len(P)):
                            p = P[n].copy()
                            if ptype == "strided":
                                p = np.repeat(p, 2)[::2]
                            elif ptype == "readonly":
                                p.flags.writeable = False
                            elif ptype == "tuple" and how == "python":
                                p = tuple(float(x) for x in p)
                            out = np.full(exp[n].shape, np.nan)
                            if how == "compiled":
                                r = fn(grid, C, p, out)
                            elif entry == "spline":
                                r = eval_spline(grid, C, p, out=out if inplace else None, k=k, diff="None", extrap_mode=mode)
                            else:
                                f = eval_linear if k == 1 else eval_cubic
                                r = f(grid, C, p, *((out,) if inplace else ()), *((XTO[mode],) if entry == "short" else ()))
                            r = out if inplace else r
                            rec.states += 1
                            rec.nontrivial += 1
                            if not check(rec, f"order {k} grid {types} vector {nx} one location as {ptype} from {how} {entry} inplace={inplace} option {mode} at {P[n].tolist()}", r, exp[n], sc[n]):
                                return
    rec.sample(dict(order=k, grid=spec(grid), location=P[0].tolist(), expected=repr(exp[0])))


def compiled_batch(rec, k, types, nx):
    """Batch calls from compiled code, allocating and in place."""
    grid, nodes, V, C = case(k, types, nx)
    P = pts(nodes, 6)
    exp, sc = expect(k, grid, nodes, V, P)
    for entry in ("spline", "short", "default"):
        for inplace in (False, True):
            f = compiled(k, len(types), nx, entry, "array", inplace, "linear")
            out = np.full(exp.shape, np.nan)
            r = f(grid, C, P, out)
            rec.states += 1
            rec.nontrivial += 1
            if not check(rec, f"order {k} grid {types} vector {nx} batch from compiled code {entry} inplace={inplace}", out if inplace else r, exp, sc):
                return


def derivatives(rec, k, types, nx, modes, lists):
    """Derivative requests through every call form, over several previous contents of the output."""
    grid, nodes, V, C = case(k, types, nx)
    d = len(types)
    P = pts(nodes, 6)
    for mode in modes:
        for L in lists:
            L = tuple(tuple(o) for o in L)
            exp, sc = [], []
            for o in L:
                W = [
                    O.lin_weights(nodes[i], P[:, i], mode, o[i]) if k == 1
                    else O.cub_weights(grid[i][0], grid[i][1], grid[i][2], P[:, i], mode, o[i])
                    for i in range(d)
                ]
                let = "abcd"[:d]
                x = "x" if nx else ""
                e = np.einsum(",".join("n" + c for c in let) + "," + let + x + "->n" + x, *W, V)
                s = np.abs(V).max() * np.prod([np.abs(w).sum(1) for w in W], axis=0) + 1e-12
                exp.append(e)
                sc.append((s[:, None] if nx else s) + 0 * e)
            exp, sc = np.stack(exp, -1), np.stack(sc, -1)
            for f in all_forms(nx > 0, L):
                for fill in (np.nan, 1.0) if not f[1] else (np.nan,):
                    rec.states += 1
                    rec.nontrivial += 1
                    r = evaluate(grid, C, P, k, mode, L, *f, fill=fill)
                    what = f"order {k} grid {types} vector {nx} derivatives {L} form(batch,alloc,type)={f} option {mode} output filled with {fill}"
                    if not check(rec, what, r, exp, sc):
                        return


def tasks(tier):
    T = []
    big = tier == "thorough"
    Ns = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 5000]
    if big:
        Ns += list(range(18, 63)) + [10000, 65536, 100001]
    for k in (1, 3):
        for types in (["u", "n", "uu", "nn", "un", "uuu", "nun"] if k == 1 else ["u", "uu", "uuu"]) + ((["uuuu"]) if big else []):
            for nx in (0, 2):
                T.append((4 * len(types), "sizes", dict(k=k, types=types, nx=nx, Ns=Ns if len(types) < 3 else Ns[::3] + [5000])))
                T.append((5 * len(types), "layouts", dict(k=k, types=types, nx=nx, combos=one_off() if len(types) < 3 or big or k == 1 else one_off()[::2])))
                if types in ("u", "n", "uu", "un", "uuu"):
                    if not (types == "uuu" and k == 3 and not big):
                        T.append((4 * len(types), "dtypes", dict(k=k, types=types, nx=nx)))
                modes = ["linear"] if not big else ["linear", "nearest", "constant"]
                if len(types) == 3 and k == 3 and not big:
                    if nx:
                        T.append((6, "compiled_batch", dict(k=k, types=types, nx=nx)))
                    continue
                T.append((5 * len(types), "single", dict(k=k, types=types, nx=nx, modes=modes, full=big or types == "u")))
                T.append((4 * len(types), "compiled_batch", dict(k=k, types=types, nx=nx)))
    pr = pairs_()
    for k, types, nx in ((1, "un", 1), (3, "u", 2)) if not big else itertools.product((1,), ("u", "n", "uu", "un"), (0, 2)):
        for i in range(4):
            T.append((9, "layouts", dict(k=k, types=types, nx=nx, combos=pr[i::4])))
    if big:
        for types, nx in itertools.product(("u", "uu"), (0, 2)):
            for i in range(4):
                T.append((9, "layouts", dict(k=3, types=types, nx=nx, combos=pr[i::4])))
    ord_ = {1: [[(1,), (0,)]], 2: [[(0, 1), (0, 0), (1, 0)]], 3: [[(0, 0, 1), (0, 0, 0), (1, 1, 0)]]}
    for k, tt in ((1, ["u", "n", "uu", "un", "nuu"]), (3, ["u", "uu"] + (["uuu"] if big else []))):
        for types in tt:
            for nx in (0, 2):
                modes = ["linear", "constant", "nearest"] if big or len(types) == 1 else ["linear", "constant"] if k == 1 else ["constant"]
                T.append((6 * len(types), "derivatives", dict(k=k, types=types, nx=nx, modes=modes, lists=ord_[len(types)])))
    for d in (1, 2, 3):
        T.append((5, "gridlayouts", dict(d=d)))
    return T
