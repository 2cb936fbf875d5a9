"""Histories of first uses of call configurations."""
import itertools
import multiprocessing
import os
import pickle
import signal
import traceback

import numpy as np

from .. import oracle as O

PROPERTY = "C18"
RULE = (
    "call configurations: for each family (spline evaluation, filtering, simple interface, compatibility "
    "functions, Hermite, objects) a base call and every call that differs from it in one option (dimension, "
    "order, derivative tuple, extrapolation, kind of grid, scalar/vector, one/many, in place, memory layout), and "
    "calls that are refused. Histories, each in a process forked from one in which nothing was compiled: every "
    "ordered pair i, j of a family with i its base call (thorough: every ordered pair), and of family representatives: i(data 1), j(data 1), j(data 2), i(data 2), "
    "j(data 1); every configuration of a family in one process, forwards and backwards, three times over (so every order of two first uses occurs); thorough: also every ordered triple of a family; for every configuration every ordered pair of data sets that differ in one respect (values, bounds, last bound, locations, everything), in new arrays and in the same array objects overwritten. Every result is compared with the result of the same "
    "call alone in a fresh process, bit for bit up to 1e-12. nontrivial: histories whose first two calls differ"
)
ASSUMPTIONS = ["process images are forked, so every history starts from the state right after import"]


# ------------------------------------------------------------------ configurations
# Data variants: 0 the base; 1 other sizes, bounds, data; 2 other data only; 3 other bounds only; 4 other
# locations only; 5 another last bound only.  10 + v: the same as v, in array objects used (and overwritten)
# by all such calls of the process.  6: data used to compile a configuration before the results for variants
# 1 to 5 are determined (variant 0 is determined in processes that did nothing else).
SIZES = {1: [3, 5, 4, 3], 6: [5, 4, 3, 4]}
_bufs = {}


def sizes(salt, d):
    return SIZES.get(salt % 10, [4, 3, 5, 3])[:d]


def bounds(salt, d):
    v = salt % 10
    iv = [O.INTERVALS[((v == 1) + 2 * i) % 4 + (4 if v == 6 else 0)] for i in range(d)]
    if v == 3:
        iv = [(a - 0.5, b + 1.0) for a, b in iv]
    elif v == 5:
        iv[-1] = (iv[-1][0], iv[-1][1] + 2.0)
    return iv


def dsalt(salt):
    return {1: 1, 2: 6, 6: 9}.get(salt % 10, 0)


def keep(salt, name, x):
    if salt < 10:
        return x
    k = (name, x.shape, x.strides)
    if k not in _bufs:
        _bufs[k] = np.empty_like(x)
    _bufs[k][...] = x
    return _bufs[k]


def locations(salt, d, fr=(0.1, 0.45, 0.8, 1.3, -0.2)):
    # relative to the bounds of variant 0 or 1, so that other bounds alone do not move them
    iv = bounds(salt % 10 if salt % 10 in (1, 6) else 0, d)
    if salt % 10 == 4:
        fr = [0.35 + 0.9 * f for f in fr[::-1]]
    return np.array([[x[0] + f * (x[1] - x[0]) for x in iv] for f in fr])


def spline_grid(salt, types, ns, iv):
    return tuple((iv[i][0], iv[i][1], ns[i]) if t == "u" else keep(salt, f"knots{i}", O.knots("square", ns[i], *iv[i])) for i, t in enumerate(types))


def _spline(salt, types="uu", k=1, diff=None, mode="linear", vec=0, point=False, out=False, layout="C", flat=False):
    from interpolation.splines import eval_spline

    d = len(types)
    ns, iv, ds = sizes(salt, d), bounds(salt, d), dsalt(salt)
    grid = spline_grid(salt, types, ns, iv)
    C = O.generic(tuple(n + (2 if k == 3 else 0) for n in ns) + ((vec,) if vec else ()), ds + 1)
    if layout == "F":
        C = np.asfortranarray(C)
    elif layout == "A":
        C = np.stack([C, C], -1)[..., 0]
    C = keep(salt, "C", C)
    P = locations(salt, d) + 0.01 * O.generic((5, d), 3)
    if flat:
        P = np.asfortranarray(P)
    P = keep(salt, "P", P)
    kw = dict(k=k, diff=str(diff), extrap_mode=mode)
    if point:
        p = P[3]
        if out:
            o = keep(salt, "o", np.full(((vec,) if vec else ()) + ((len(diff),) if diff else ()), 9.0))
            eval_spline(grid, C, p, out=o, **kw)
            return o
        return eval_spline(grid, C, p, out=None, **kw)
    if out:
        o = keep(salt, "o", np.full((5,) + ((vec,) if vec else ()) + ((len(diff),) if diff else ()), 9.0))
        eval_spline(grid, C, P, out=o, **kw)
        return o
    return eval_spline(grid, C, P, out=None, **kw)


def _entry(salt, fn, types="uu", opt=None, out=False, point=False, vec=0, bad=False):
    import interpolation.splines as S
    from interpolation.splines import extrap_options as xto

    d = len(types)
    cubic = fn == "eval_cubic"
    ns, iv, ds = sizes(salt, d), bounds(salt, d), dsalt(salt)
    grid = spline_grid(salt, types, ns, iv)
    C = keep(salt, "C", O.generic(tuple(n + (2 if cubic else 0) for n in ns) + ((vec,) if vec else ()), ds + 1))
    P = keep(salt, "P", locations(salt, d))
    f = getattr(S, fn)
    extra = (getattr(xto, opt),) if opt else ()
    if bad:
        extra = ("no such option",)
    if point:
        return f(grid, C, P[3], *extra)
    if out:
        o = keep(salt, "o", np.full((5,) + ((vec,) if vec else ()), 9.0))
        f(grid, C, P, o, *extra)
        return o
    return f(grid, C, P, *extra)


def _prefilter(salt, d=2, k=3, vec=0, out=False, layout="C", fn="prefilter"):
    import interpolation.splines as S

    ns = sizes(salt, d)
    grid = tuple((*x, n) for x, n in zip(bounds(salt, d), ns))
    V = O.generic(tuple(ns) + ((vec,) if vec else ()), dsalt(salt) + 2)
    if layout == "F":
        V = np.asfortranarray(V)
    V = keep(salt, "V", V)
    if fn == "filter_cubic":
        return S.filter_cubic(grid, V)
    if out:
        o = keep(salt, "o", np.zeros(tuple(n + 2 for n in ns) + ((vec,) if vec else ())))
        S.prefilter(grid, V, o, k)
        return o
    return S.prefilter(grid, V, None, k)


def _interp(salt, types="nn", how="batch", values="C"):
    from interpolation import interp

    d = len(types)
    ns, iv = sizes(salt, d), bounds(salt, d)
    G = spline_grid(salt, types, ns, iv)
    C = O.generic(tuple(ns), dsalt(salt) + 3)
    if values == "F":
        C = np.asfortranarray(C)
    C = keep(salt, "C", C)
    P = locations(salt, d)
    P[:, -1] = P[::-1, -1]
    P = keep(salt, "P", P)
    if how == "batch":
        return interp(*G, C, P)
    if how == "line":
        return interp(*G, C, keep(salt, "L", P[:, 0].copy()))
    if how == "scalar":
        return interp(*G, C, *[float(v) for v in P[1]])
    if how == "point":
        return interp(*G, C, P[1])
    if how == "tuple":
        return interp(*G, C, tuple(float(v) for v in P[1]))
    if how == "cartesian":
        return interp(*G, C, *[keep(salt, f"L{i}", P[:3, i].copy()) for i in range(d)])
    if how == "int":
        return interp(*G, C, *[int(v) for v in P[1]])
    if how == "refused":
        return interp(*G, O.generic(tuple(ns) + (2,), 1), *[float(v) for v in P[1]])
    raise ValueError(how)


def _mlinterp(salt, types="nn", how="batch"):
    from interpolation import mlinterp

    d = len(types)
    ns, iv = sizes(salt, d), bounds(salt, d)
    G = spline_grid(salt, types, ns, iv)
    C = keep(salt, "C", O.generic(tuple(ns), dsalt(salt) + 3))
    P = keep(salt, "P", locations(salt, d, (0.1, 0.45, 0.8)))
    if how == "batch":
        return mlinterp(G, C, P)
    return mlinterp(G, C, tuple(float(v) for v in P[1]))


def _legacy(salt, fn, d=2, out=False):
    import importlib

    mod = {"e": "eval_cubic", "n": "eval_cubic_numba", "m": "multilinear_numba", "f": "filter_cubic"}[fn[0]]
    M = importlib.import_module("interpolation.splines." + mod)
    name = fn[2:]
    ns = keep(salt, "ns", np.array(sizes(salt, d)))
    iv, ds = bounds(salt, d), dsalt(salt)
    a, b = keep(salt, "a", np.array([x[0] for x in iv])), keep(salt, "b", np.array([x[1] for x in iv]))
    P = keep(salt, "P", locations(salt, d))
    if fn[0] == "f":
        V = O.generic(tuple(ns), ds) if "m" not in name else O.generic(tuple(ns) + (2,), ds)
        return getattr(M, name)(a, b, ns, keep(salt, "V", V))
    many = name.startswith("vec_")
    splines = "splines" in name or name == "vec_multilinear_interpolation"
    C = keep(salt, "C", O.generic(tuple(ns + (0 if fn[0] == "m" else 2)) + ((2,) if splines else ()), ds + 1))
    pts = P if many or fn[0] == "m" else P[3]
    r = getattr(M, name)(a, b, ns, C, pts)
    return np.concatenate([np.ravel(x) for x in r]) if isinstance(r, (list, tuple)) else r


def _hermite(salt, how):
    from numba import njit

    from interpolation.splines import hermite as H

    v = salt % 10
    x = keep(salt, "x", np.array([-1.0, 0.0, 4.0] if v == 1 else [-0.5, 0.6, 2.0, 3.5] if v == 3 else [0.0, 0.5, 2.0, 5.0] if v == 5 else [1.0, 2.0, 7.0] if v == 6 else [0.0, 0.5, 2.0, 3.0]))
    y, yp = keep(salt, "y", O.generic(x.shape, 1 + dsalt(salt))), keep(salt, "yp", O.generic(x.shape, 2 + dsalt(salt)))
    L = np.linspace(-2, 5, 7) if v == 1 else np.linspace(-1, 4, 7) + (0.3 if v == 4 else 0.0)
    L = keep(salt, "L", L)
    x0 = 0.7 + (0.3 if v == 4 else 0.0)
    if how == "function":
        return H.HermiteInterpolation(x0, x, y, yp)
    if how == "vector":
        return H.HermiteInterpolationVect(L, x, y, yp)
    hermite = H.hermite
    if "hermite" not in _funs:
        _funs["hermite"] = njit(lambda x0, x, y, yp: hermite(x0, x, y, yp))
    return _funs["hermite"]({"scalar": x0, "array": L, "matrix": L.reshape(-1, 1)}[how], x, y, yp)


_funs = {}


def _object(salt, cls, how="batch", d=2):
    import interpolation.splines as S

    ns, iv = sizes(salt, d), bounds(salt, d)
    vec = cls.endswith("s")
    V = keep(salt, "V", O.generic(tuple(ns) + ((2,) if vec else ()), dsalt(salt)))
    o = getattr(S, cls)(keep(salt, "a", np.array([x[0] for x in iv])), keep(salt, "b", np.array([x[1] for x in iv])), ns, V)
    P = keep(salt, "P", locations(salt, d, (0.1, 0.45, 0.8)))
    if how == "diff":
        return np.concatenate([np.ravel(v) for v in o.interpolate(P, diff=True)])
    if how == "grid":
        return o.grid
    return o(P if how == "batch" else P[1])


def _complete(salt, how="eval", d=2, deg=2, many=True):
    from interpolation.complete_poly import CompletePolynomial, complete_polynomial, complete_polynomial_der

    v = salt % 10
    X = keep(salt, "X", O.generic((d, 12), 1 + {1: 1, 3: 5, 4: 6, 5: 7, 6: 8}.get(v, 0)))
    if how == "basis":
        return complete_polynomial(X, deg)
    if how == "vector":
        return complete_polynomial(keep(salt, "x", X[:, 0].copy()), deg)
    if how == "der":
        return complete_polynomial_der(X, deg, 1)
    p = CompletePolynomial(d, deg)
    p.fit_values(X.T, keep(salt, "Y", O.generic((12, 2), dsalt(salt) + 4)))
    return p(X.T)


def _smolyak(salt, d=2, mu=2, how="eval"):
    from interpolation.smolyak import SmolyakGrid, SmolyakInterp

    v = salt % 10
    lb, ub = -np.ones(d) - (v == 1) - 2 * (v == 3) - 3 * (v == 6), np.ones(d) * 2
    if v == 5:
        ub[-1] += 3.0
    g = SmolyakGrid(d, mu, keep(salt, "lb", lb), keep(salt, "ub", ub))
    if how == "grid":
        return g.grid
    i = SmolyakInterp(g, keep(salt, "f", O.generic((g.grid.shape[0],), dsalt(salt))))
    return np.concatenate([np.ravel(x) for x in i.interpolate(keep(salt, "P", 0.5 * O.generic((4, d), 5 if v == 4 else 2)), deriv=True)])


def _cartesian(salt, d=2, order="C"):
    from interpolation.cartesian import cartesian, mlinspace

    ns = sizes(salt, d)
    iv = bounds(salt, d)
    return np.concatenate([cartesian([keep(salt, f"n{i}", O.generic((n,), i + dsalt(salt))) for i, n in enumerate(ns)], order=order), mlinspace([x[0] for x in iv], [x[1] for x in iv], ns, order=order)])


def configs():
    D01, D10, D11 = ((0, 0), (0, 1)), ((0, 0), (1, 0)), ((1, 1),)
    F = {}
    F["spline"] = [
        ("_spline", {}), ("_spline", dict(k=3)), ("_spline", dict(types="nu")), ("_spline", dict(types="un")), ("_spline", dict(types="nn")),
        ("_spline", dict(mode="nearest")), ("_spline", dict(mode="constant")), ("_spline", dict(vec=2)), ("_spline", dict(out=True)), ("_spline", dict(point=True)),
        ("_spline", dict(diff=D01)), ("_spline", dict(diff=D10)), ("_spline", dict(types="u")), ("_spline", dict(types="uuu")), ("_spline", dict(layout="A")),
    ]
    F["splinecubic"] = [
        ("_spline", dict(k=3)), ("_spline", dict(k=3, mode="nearest")), ("_spline", dict(k=3, mode="constant")), ("_spline", dict(k=3, vec=2)), ("_spline", dict(k=3, point=True)),
        ("_spline", dict(k=3, diff=D01)), ("_spline", dict(k=3, diff=D10)), ("_spline", dict(k=3, diff=D11)), ("_spline", dict(k=3, types="u")),
    ]
    F["splinepoint"] = [
        ("_spline", dict(point=True, diff=D01)), ("_spline", dict(point=True, diff=D10)), ("_spline", dict(point=True, diff=D01, out=True)), ("_spline", dict(point=True, vec=2)),
        ("_spline", dict(point=True, vec=2, out=True)), ("_spline", dict(point=True, mode="constant")), ("_spline", dict(point=True, types="n")),
    ]
    F["entry"] = [("_entry", dict(fn=f, opt=o)) for f in ("eval_linear", "eval_cubic") for o in (None, "CONSTANT", "LINEAR", "NEAREST")] + [
        ("_entry", dict(fn="eval_linear", out=True)), ("_entry", dict(fn="eval_cubic", out=True, opt="NEAREST")), ("_entry", dict(fn="eval_linear", bad=True)), ("_entry", dict(fn="eval_linear", types="un")),
    ]
    F["filter"] = [("_prefilter", {}), ("_prefilter", dict(d=1)), ("_prefilter", dict(d=3)), ("_prefilter", dict(vec=2)), ("_prefilter", dict(vec=3)), ("_prefilter", dict(out=True)), ("_prefilter", dict(k=1)), ("_prefilter", dict(layout="F")), ("_prefilter", dict(fn="filter_cubic")), ("_prefilter", dict(d=1, vec=2))]
    F["interp"] = [("_interp", dict(how=h)) for h in ("batch", "scalar", "point", "tuple", "cartesian", "int", "refused")] + [
        ("_interp", dict(types="n", how="line")), ("_interp", dict(types="n", how="scalar")), ("_interp", dict(types="uu")), ("_interp", dict(types="un", how="scalar")), ("_interp", dict(types="nnn")), ("_interp", dict(values="F")),
        ("_mlinterp", {}), ("_mlinterp", dict(how="tuple")), ("_mlinterp", dict(types="u", how="tuple")),
    ]
    F["legacy"] = [("_legacy", dict(fn=f)) for f in ("e:eval_cubic_spline", "e:vec_eval_cubic_spline", "e:vec_eval_cubic_splines", "e:eval_cubic_splines", "m:multilinear_interpolation", "m:vec_multilinear_interpolation", "f:filter_coeffs", "f:filter_mcoeffs")] + [
        ("_legacy", dict(fn="e:vec_eval_cubic_spline", d=1)), ("_legacy", dict(fn="m:multilinear_interpolation", d=1)), ("_legacy", dict(fn="f:filter_coeffs", d=1)),
    ]
    F["objects"] = [("_object", dict(cls=c)) for c in ("CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines")] + [("_object", dict(cls="CubicSplines", how="diff")), ("_object", dict(cls="CubicSpline", how="point")), ("_object", dict(cls="LinearSpline", how="grid")), ("_object", dict(cls="CubicSpline", d=1))]
    F["hermite"] = [("_hermite", dict(how=h)) for h in ("function", "vector", "scalar", "array", "matrix")]
    F["complete"] = [("_complete", dict(how=h, deg=k, d=d)) for h in ("basis", "der", "vector", "eval") for k, d in ((2, 2), (3, 2), (2, 3))]
    F["smolyak"] = [("_smolyak", dict(d=d, mu=m, how=h)) for d, m in ((2, 2), (2, 3), (3, 2), (2, [1, 2])) for h in ("grid", "eval")]
    F["cartesian"] = [("_cartesian", dict(d=d, order=o)) for d in (1, 2, 3) for o in "CF"]
    # one representative of every family, against one another
    F["across"] = [F["spline"][0], F["splinecubic"][0], F["entry"][0], F["entry"][6], F["filter"][0], F["interp"][0], F["interp"][4], F["interp"][13], F["legacy"][1], F["legacy"][6], F["objects"][0], F["objects"][4], F["filter"][8], F["hermite"][3], F["complete"][9]]
    return F


# ------------------------------------------------------------------ running histories
def call(cfg, salt):
    name, kw = cfg
    try:
        r = globals()[name](salt, **kw)
        return np.array(r, dtype=float)
    except Exception as e:
        return "error " + type(e).__name__


def in_child(fun, limit=600):
    """Run fun in a forked process; returns its result, or a string if the process died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(limit)
            data = pickle.dumps(fun())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        return f"process ended with status {st}"
    return pickle.loads(data)


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a.split()[0] == b.split()[0]
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= 1e-12 * (np.abs(a).max(initial=0) + 1e-300)) | (np.isnan(a) & np.isnan(b))))


FRESH = {}  # (configuration, data) -> result in a fresh process


def key(cfg, salt):
    return (cfg[0], tuple(sorted((k, str(v)) for k, v in cfg[1].items())), salt % 10)


def _fresh(item):
    cfg, salts = item
    if salts == [0]:
        return cfg, salts, [in_child(lambda: call(cfg, 0))]

    def root():
        call(cfg, 6)
        return [in_child(lambda: call(cfg, s)) for s in salts]

    r = in_child(root)
    return cfg, salts, [r] * len(salts) if isinstance(r, str) else r


def warm():
    todo = {}
    F = configs()
    for name, fam in F.items():
        for i, c in enumerate(fam):
            todo.setdefault(key(c, 0), (c, [0]))
            if i in VARIANTS.get(name, ()):
                todo[key(c, 1)] = (c, [1, 2, 3, 4, 5])
            else:
                todo.setdefault(key(c, 1), (c, [1]))
    with multiprocessing.get_context("fork").Pool(8) as p:
        for c, salts, rs in p.imap_unordered(_fresh, list(todo.values())):
            for s, r in zip(salts, rs):
                FRESH[key(c, s)] = r


def fresh(cfg, salt):
    k = key(cfg, salt)
    if k not in FRESH:
        FRESH[k] = _fresh((cfg, [salt % 10]))[2][0]
    return FRESH[k]


def judge(rec, history, results):
    rec.traces += 1
    rec.transitions += len(history)
    if isinstance(results, str):
        rec.violate(f"history {history}: {results}", key="died")
        return False
    for n, ((cfg, s), r) in enumerate(zip(history, results)):
        e = fresh(cfg, s)
        rec.outcome(r)
        if not same(r, e):
            rec.violate(f"call {n} of the history {history} gives {r if isinstance(r, str) else r.ravel()[:8]}, in a fresh process {e if isinstance(e, str) else e.ravel()[:8]}", key=f"history:{cfg[0]}")
            return False
    return True


def sane(rec, family):
    """No configuration is refused that should work (a check against vacuity)."""
    for c in configs()[family]:
        for s in (0, 1):
            r = fresh(c, s)
            bad = c[1].get("bad") or c[1].get("how") == "refused"
            rec.states += 1
            rec.transitions += 1
            if isinstance(r, str) != bool(bad):
                rec.violate(f"alone in a fresh process, {c} gives {r}", key="alone")
                return


def pairs(rec, family, i, second, more=()):
    """Everything after a first use of configuration i."""
    fam = configs()[family]
    ci = fam[i]

    def root():
        first = call(ci, 0)
        out = []
        for j in second:
            cj = fam[j]

            def leaf():
                return [call(cj, 0), call(cj, 1), call(ci, 1), call(cj, 0)]

            hist = [(ci, 0), (cj, 0), (cj, 1), (ci, 1), (cj, 0)]
            r = in_child(leaf)
            out.append((hist, r if isinstance(r, str) else [first] + r))
            for m in more:
                if m in (i, j):
                    continue
                cm = fam[m]

                def leaf3():
                    a = call(cj, 1)
                    return [a, call(cm, 0), call(cj, 0), call(ci, 1), call(cm, 1)]

                hist = [(ci, 0), (cj, 1), (cm, 0), (cj, 0), (ci, 1), (cm, 1)]
                r = in_child(leaf3)
                out.append((hist, r if isinstance(r, str) else [first] + r))
        return out

    res = in_child(root, 3600)
    if isinstance(res, str):
        rec.violate(f"histories starting with {ci}: {res}", key="died")
        return
    for hist, r in res:
        rec.states += len(hist)
        rec.nontrivial += hist[0][0] != hist[1][0]
        if not judge(rec, hist, r):
            return
    rec.sample(dict(history=[str(h) for h in res[-1][0]]))


def long(rec, family, reverse, rotate):
    """Every configuration of the family in one process, in a rotated order, twice."""
    fam = configs()[family]
    order = list(range(len(fam)))
    order = order[rotate:] + order[:rotate]
    if reverse:
        order = order[::-1]
    hist = [(fam[j], s) for s in (0, 1, 0) for j in order]
    r = in_child(lambda: [call(c, s) for c, s in hist], 3600)
    rec.states += len(hist)
    rec.nontrivial += 1
    judge(rec, hist, r)


def variants(rec, family, i):
    """One configuration, every ordered pair of data variants consecutively, then again in array objects
    that are overwritten."""
    cfg = configs()[family][i]
    vs = [0, 2, 3, 4, 5, 1]
    walk = []
    for a in vs:
        for b in vs:
            walk += [a, b]
    hist = [(cfg, v) for v in walk] + [(cfg, 10 + v) for v in walk]
    r = in_child(lambda: [call(c, s) for c, s in hist], 3600)
    rec.states += len(hist)
    rec.nontrivial += len(hist) - 1
    if judge(rec, hist, r):
        rec.sample(dict(configuration=str(cfg), variants=len(hist)))


VARIANTS = {name: range(len(fam)) for name, fam in configs().items() if name != "across"}


def tasks(tier):
    T = []
    big = tier == "thorough"
    for name, fam in configs().items():
        n = len(fam)
        T.append((0, "sane", dict(family=name)))
        for i in VARIANTS.get(name, ()):
            T.append((15, "variants", dict(family=name, i=i)))
        for i in range(n):
            # quick: pairs with the base call (one option different), among Smolyak calls all
            # (that call before the base call: in the long histories)
            others = list(range(n)) if big or i == 0 or name == "smolyak" else []
            if name == "across":
                others = list(range(n)) if big else [j for j in range(n) if j != i][i % 3 :: 3]
            step = 4
            for q in range(0, len(others), step):
                T.append((10, "pairs", dict(family=name, i=i, second=others[q : q + step])))
                if big:
                    for j in others[q : q + step]:
                        if j != i:
                            T.append((30, "pairs", dict(family=name, i=i, second=[j], more=others)))
        for rev in (False, True):
            T.append((40, "long", dict(family=name, reverse=rev, rotate=0)))
            if big:
                for rot in range(1, n):
                    T.append((40, "long", dict(family=name, reverse=rev, rotate=rot)))
    return T
