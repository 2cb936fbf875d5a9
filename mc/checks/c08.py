"""Histories of spline objects."""
import itertools

import numpy as np

from .. import oracle as O
from ..core import REPO  # noqa: F401

from interpolation.splines import CubicSpline, CubicSplines, LinearSpline, LinearSplines

PROPERTY = "C08"
RULE = (
    "two objects A and B of one class on different grids; every sequence of operations up to the depth "
    "(set values shaped / flat / integer, refused values and locations, evaluate batches, one location and "
    "a reused location buffer, in place, gradient, grid access, overwrite the array given, set the same array object with other numbers, rebuild B) and one "
    "long history containing every operation triple consecutively; two objects on every ordered pair of grids that differ in one parameter; a non-finite number in every place of values and locations; model: the values last accepted by each "
    "object. Every result is compared when returned and again at the end. Depth 3, and 4 for d=1 (quick), one more (thorough); "
    "d=1..3 (histories), d=1..4 (grid/values correspondence); nontrivial: histories that change a value"
)
ASSUMPTIONS = [
    "arrays handed to LinearSpline(s).set_values are not modified afterwards (they may be shared by design)",
    "results are compared up to 1e-9 of the magnitude of the summed terms",
]

CLASSES = dict(LinearSpline=LinearSpline, LinearSplines=LinearSplines, CubicSpline=CubicSpline, CubicSplines=CubicSplines)
BOUNDS = [((0.0, 1.0, 4), (-2.0, 0.5, 3)), ((5.0, 15.0, 3), (1.0, 3.0, 4)), ((-3.5, -1.25, 2), (0.0, 0.25, 3)), ((0.1, 0.7, 3), (10.0, 11.0, 2))]


class Obj:
    """The real object together with the model's idea of it."""

    def __init__(self, cls, d, which, build):
        self.setup(cls, d, [BOUNDS[i][which] for i in range(d)], build)

    def setup(self, cls, d, g, build):
        self.cls, self.d = cls, d
        self.cubic, self.vec = cls.startswith("Cubic"), cls.endswith("s")
        self.a, self.b, self.n = [x[0] for x in g], [x[1] for x in g], [x[2] for x in g]
        self.nodes = [np.linspace(a, b, n) for a, b, n in g]
        self.vals = None
        self.given = None
        self.nsp = 2
        if build is None:
            self.real = CLASSES[cls](self.a, self.b, self.n)
        else:
            v, arr = self.values(build, "shaped")
            self.real = CLASSES[cls](self.a, self.b, self.n, arr)
            self.vals, self.given = v, arr

    def values(self, k, how):
        nsp = 3 if (k == 2 and self.vec) else 2
        shape = tuple(self.n) + ((nsp,) if self.vec else ())
        v = O.generic(shape, 1 + k)
        if how == "int":
            v = np.round(20 * v)
        arr = v.copy()
        if how == "flat":
            arr = arr.reshape((-1, nsp) if self.vec else -1).copy()
        elif how == "int":
            arr = arr.astype(int)
        elif how == "fortran":
            arr = np.asfortranarray(arr)
        return v, arr

    def set(self, k, how):
        v, arr = self.values(k, how)
        self.real.set_values(arr)
        self.vals, self.given = v, arr

    def expected(self, P, der=None):
        W = []
        for i in range(self.d):
            e = der[i] if der else 0
            if self.cubic:
                W.append(O.cub_weights(self.a[i], self.b[i], self.n[i], P[:, i], "linear", e))
            else:
                W.append(O.lin_weights(self.nodes[i], P[:, i], "linear", e))
        let = "abcd"[: self.d]
        x = "x" if self.vec else ""
        r = np.einsum(",".join("n" + c for c in let) + "," + let + x + "->n" + x, *W, self.vals)
        sc = np.abs(self.vals).max() * np.prod([np.abs(w).sum(1) for w in W], axis=0) + 1e-12
        return r, (sc[:, None] if self.vec else sc) + 0 * r

    def points(self, salt, N=3):
        u = np.mod(np.outer(np.arange(1, N + 1) + 0.37 * salt, np.sqrt([2.0, 3.0, 5.0, 7.0][: self.d])), 1.0) * 1.4 - 0.2
        return np.array(self.a) + (np.array(self.b) - np.array(self.a)) * u


class Run:
    def __init__(self, rec, cls, d):
        self.rec, self.cls, self.d = rec, cls, d
        self.A = Obj(cls, d, 0, 1)
        self.B = Obj(cls, d, 1, None)
        self.kept = []  # (what, returned array, copy of its content)
        self.buf = None
        self.hist = []

    def fail(self, what):
        self.rec.violate(f"{self.cls} d={self.d} after {self.hist}: {what}", key=what.split(":")[0][:60], history=list(self.hist))
        return False

    def compare(self, what, r, exp, sc):
        r = np.asarray(r)
        bad = O.mismatch(r, exp, sc)
        if bad is not None:
            return self.fail(f"{what}: got {r.tolist()} expected {exp.tolist()}")
        self.rec.outcome(r)
        self.kept.append((what, r, r.copy()))
        return True

    def evaluate(self, o, P, call="call"):
        exp, sc = o.expected(np.atleast_2d(P))
        before = P.copy()
        if call == "call":
            r = o.real(P)
        elif call == "interpolate":
            r = o.real.interpolate(P)
        if not np.array_equal(before, P):
            return self.fail("locations modified")
        if P.ndim == 1:
            exp, sc = exp[0], sc[0]
        return self.compare(f"evaluation ({call})", r, exp, sc)

    def refused(self, f, what):
        try:
            f()
        except Exception:
            return True
        return self.fail(f"{what} was not refused")

    def step(self, op):
        A, B = self.A, self.B
        self.hist.append(op)
        self.rec.transitions += 1
        if op == "A.set0":
            A.set(0, "shaped")
        elif op == "A.set1flat":
            A.set(1, "flat")
        elif op == "A.set2int":
            A.set(2, "int")
        elif op == "A.reuse":  # the array given last, with other numbers, given again
            v, _ = A.values(7 + len(self.hist), "int")
            arr = A.given
            v = v[..., : arr.shape[-1]] if A.vec else v
            if A.vec and v.shape[-1] < arr.shape[-1]:
                v = np.concatenate([v, v[..., :1] + 1], axis=-1)
            arr[...] = v.reshape(arr.shape)
            A.real.set_values(arr)
            A.vals = v
        elif op == "B.set":
            B.set(3, "fortran")
        elif op == "B.new":
            self.B = Obj(self.cls, self.d, 1, 4)
        elif op == "A.badvalues":
            v, arr = A.values(5, "shaped")
            arr[(0,) * arr.ndim] = np.nan
            if A.cubic:
                return self.refused(lambda: A.real.set_values(arr), "setting a NaN")
        elif op == "A.inf":
            v, arr = A.values(5, "shaped")
            arr[(-1,) * arr.ndim] = -np.inf
            if A.cubic:
                return self.refused(lambda: A.real.set_values(arr), "setting an infinite value")
        elif op == "A.badshape":
            sh = [n + 1 for n in A.n] + ([2] if A.vec else [])
            return self.refused(lambda: A.real.set_values(O.generic(sh, 6)), "values of the wrong size")
        elif op == "A.eval":
            return self.evaluate(A, A.points(1))
        elif op == "A.evalbuf":  # the same array object, with other content every time
            if self.buf is None:
                self.buf = np.empty((4, self.d))
            self.buf[...] = A.points(2 + len(self.hist), 4)
            return self.evaluate(A, self.buf, "interpolate")
        elif op == "A.one":
            return self.evaluate(A, A.points(3 + len(self.hist), 1)[0])
        elif op == "A.badpoint":
            if A.cubic:
                P = A.points(4)
                P[1, -1] = [np.nan, np.inf][len(self.hist) % 2]
                return self.refused(lambda: A.real(P), "a non-finite location")
            return self.evaluate(A, A.points(4, 1))
        elif op == "A.inplace":
            P = A.points(5)
            exp, sc = A.expected(P)
            if self.cls == "CubicSpline":
                out = np.full(3, np.nan)
                A.real.interpolate(P, out)
                return self.compare("evaluation in place", out, exp, sc)
            if self.cls == "CubicSplines":
                v, dv = A.real.interpolate(P, diff=True)
                if not self.compare("values with gradient", v, exp, sc):
                    return False
                for i in range(self.d):
                    e, s = A.expected(P, [int(j == i) for j in range(self.d)])
                    if not self.compare(f"gradient {i}", dv[:, i, :], e, s):
                        return False
                return True
            return self.evaluate(A, np.asfortranarray(P))
        elif op == "A.overwrite":
            if A.cubic and A.given is not None:
                A.given[...] = 55
        elif op == "A.grid":
            return self.grid(A)
        elif op == "B.eval":
            if B.vals is not None:
                return self.evaluate(B, B.points(6))
            return self.grid(B)
        else:
            raise ValueError(op)
        return True

    def grid(self, o):
        G = np.asarray(o.real.grid)
        E = np.array(list(itertools.product(*o.nodes)))
        if not o.cubic:
            E = E.T
        if G.shape != E.shape or np.abs(G - E).max() > 1e-12 * (1 + np.abs(E).max()):
            return self.fail(f"grid: {G.shape} {G.tolist()}")
        self.kept.append(("grid", G, G.copy()))
        return True

    def finish(self):
        self.rec.traces += 1
        self.hist.append("end")
        ok = self.evaluate(self.A, self.A.points(7, 2)) and self.grid(self.A)
        if ok and self.B.vals is not None:
            ok = self.evaluate(self.B, self.B.points(8, 2)) and self.grid(self.B)
        for what, r, c in self.kept:
            if ok and not np.array_equal(r, c):
                return self.fail(f"a result returned earlier changed: {what}")
        return ok


OPS = ["A.eval", "A.set0", "A.set1flat", "A.set2int", "A.badvalues", "A.badshape", "A.evalbuf", "A.one", "A.badpoint", "A.inplace", "A.overwrite", "A.reuse", "A.grid", "B.eval", "B.set", "B.new", "A.inf"]


def ops_for(cls):
    return OPS if cls.startswith("Cubic") else [o for o in OPS if o not in ("A.badvalues", "A.overwrite", "A.inf")]


def tree(rec, cls, d, depth, firsts):
    ops = ops_for(cls)
    for L in range(1, depth + 1):
        for h in itertools.product(ops, repeat=L):
            if h[0] not in firsts:
                continue
            run = Run(rec, cls, d)
            rec.states += 1
            rec.nontrivial += any("set" in o or o == "B.new" or "bad" in o for o in h)
            for op in h:
                if not run.step(op):
                    return
            if not run.finish():
                return
    rec.sample(dict(cls=cls, d=d, history=list(h)))


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def long_history(rec, cls, d, n):
    ops = ops_for(cls)
    run = Run(rec, cls, d)
    seq = debruijn(len(ops), n)
    for i in seq:
        rec.states += 1
        rec.nontrivial += 1
        if not run.step(ops[i]):
            run.hist = run.hist[-12:]
            return
        run.hist = run.hist[-40:] if len(run.hist) % 50 == 0 else run.hist
    run.finish()
    rec.sample(dict(cls=cls, d=d, long_history=len(seq)))


def correspondence(rec, cls, d, ns):
    """Values computed on the exposed grid, in its order, give that function back; every order tuple."""
    cubic, vec = cls.startswith("Cubic"), cls.endswith("s")
    for nn in ns:
        a, b = [x[0][0] for x in BOUNDS[:d]], [x[0][1] for x in BOUNDS[:d]]
        s = CLASSES[cls](a, b, list(nn))
        G = np.asarray(s.grid)
        G = G if cubic else G.T
        f = lambda X: 1.5 + X @ np.array([1.0, -2.0, 0.5, 3.0][:d])
        v = f(G)
        if vec:
            v = np.column_stack([v, 2 * v + 1, -v])
        for how in ("flat", "shaped", "built"):
            w = v.copy() if how == "flat" else v.reshape(tuple(nn) + ((3,) if vec else ())).copy()
            if how == "built":
                s = CLASSES[cls](tuple(a), np.array(b), tuple(nn), w)
            else:
                s.set_values(w)
            o = Obj(cls, d, 0, None)
            P = np.vstack([o.points(1, 5), G[:7]])
            e = f(P)
            if vec:
                e = np.column_stack([e, 2 * e + 1, -e])
            r = s(P)
            rec.states += 1
            rec.nontrivial += 1
            rec.transitions += 2
            rec.traces += 1
            rec.outcome(r)
            bad = O.mismatch(r, e, 100 + np.abs(e))
            if bad is not None:
                rec.violate(f"{cls} orders {nn} values {how}: affine function of the exposed grid not reproduced at {P[bad[0]].tolist() if isinstance(bad[0], int) else bad}", key="grid-order")
                return
            one = s(P[0])
            if O.mismatch(one, e[0], 100 + np.abs(e[0])) is not None:
                rec.violate(f"{cls} orders {nn}: one location gives {one}, expected {e[0]}", key="one")
                return


def grids_like(d):
    """A grid and every grid that differs from it in one parameter or in the order of its dimensions."""
    base = [list(BOUNDS[i][0]) for i in range(d)]
    out = [base]
    for i in range(d):
        w = base[i][1] - base[i][0]
        for j, v in ((0, base[i][0] - w), (0, base[i][0] + w / 4), (1, base[i][1] + w), (1, base[i][1] - w / 4), (2, base[i][2] + 1)):
            g = [list(x) for x in base]
            g[i][j] = v
            out.append(g)
    if d > 1:
        out.append(base[::-1])
    out.append([[-x[1], -x[0], x[2]] for x in base])
    out.append([[x[0] + 10, x[1] + 10, x[2]] for x in base])
    return out


def pairs(rec, cls, d):
    """Two objects on grids differing in one parameter, used alternately; every ordered pair."""
    L = grids_like(d)
    for i, g in enumerate(L):
        for j, h in enumerate(L):
            run = Run(rec, cls, d)
            run.hist.append(f"objects on {g} and {h}")
            objs = []
            for which, gg in enumerate((g, h)):
                o = Obj.__new__(Obj)
                o.setup(cls, d, [tuple(x) for x in gg], 1 if j % 2 else 1 + which)
                objs.append(o)
            rec.states += 1
            rec.nontrivial += i != j
            A, B = objs
            run.A, run.B = A, B
            rec.transitions += 8
            for o in (A, B, A):
                if not (run.grid(o) and run.evaluate(o, o.points(1, 4))):
                    return
            B.set(3, "flat")
            if not (run.evaluate(A, A.points(1, 4)) and run.evaluate(B, B.points(1, 4)) and run.finish()):
                return
    rec.sample(dict(cls=cls, d=d, grids=len(L)))


def refusals(rec, cls, d):
    """A non-finite number in every place of the values, and of the locations, is refused and changes nothing;
    finite numbers of any size are accepted."""
    R = Run(rec, cls, d)
    A = R.A
    v, arr = A.values(5, "shaped")
    P0 = A.points(1)
    ref = np.array(A.real(P0))
    nan, inf = np.nan, np.inf
    cases = [({i: x}) for i in np.ndindex(*arr.shape) for x in (nan, inf, -inf)]
    idx = list(np.ndindex(*arr.shape))
    cases += [{i: inf, j: -inf} for i, j in zip(idx, idx[1:])] + [{i: x for i in idx} for x in (nan, inf, -inf)]
    for case in cases:
        bad = arr.copy()
        for i, x in case.items():
            bad[i] = x
        for how in (bad, bad.reshape(-1, bad.shape[-1]) if A.vec else bad.reshape(-1), bad.tolist()):
            rec.states += 1
            rec.nontrivial += 1
            rec.transitions += 2
            rec.traces += 1
            if not R.refused(lambda: A.real.set_values(how), f"setting {case}"):
                return
            if not np.array_equal(np.array(A.real(P0)), ref):
                R.fail(f"a refused setting ({case}) changed the object")
                return
        if len(case) == 1 and not R.refused(lambda: CLASSES[cls](A.a, A.b, A.n, bad), f"building on {case}"):
            return
    for N in (1, 2, 3, 40):
        P = A.points(2, N)
        for i in range(N):
            for j in range(d):
                for x in (nan, inf, -inf):
                    Q = P.copy()
                    Q[i, j] = x
                    rec.states += 1
                    rec.nontrivial += 1
                    rec.transitions += 2
                    rec.traces += 1
                    if not R.refused(lambda: A.real(Q), f"location {Q[i].tolist()}") or not R.refused(lambda: A.real.interpolate(Q), f"location {Q[i].tolist()}"):
                        return
                    if N == 1 and not R.refused(lambda: A.real(Q[0]), f"location {Q[0].tolist()}"):
                        return
                    if cls == "CubicSplines" and not R.refused(lambda: A.real.interpolate(Q, diff=True), f"gradient at {Q[i].tolist()}"):
                        return
        if not R.evaluate(A, P):
            return
    for size in (1e-300, 1e-200, 1e-100, 1e100, 1e200, 1e300):
        for sign in (1.0, -1.0):
            A.vals = sign * size * v
            A.real.set_values(A.vals.copy())
            rec.transitions += 2
            Q = A.points(3, 5)
            exp, sc = A.expected(Q)
            r = np.asarray(A.real(Q))
            rec.outcome(r)
            if r.shape != exp.shape or not (np.abs(r - exp) <= 1e-9 * (np.abs(A.vals).max() * 100)).all():
                R.fail(f"values of size {size}: got {r.tolist()} expected {exp.tolist()}")
                return
    rec.sample(dict(cls=cls, d=d, refused=len(cases)))


def warm():
    for cls in CLASSES:
        for d in (1, 2):
            o = Obj(cls, d, 0, 1)
            o.real(o.points(1))


def tasks(tier):
    T = []
    big = tier == "thorough"
    for cls in CLASSES:
        ops = ops_for(cls)
        for d in (1, 2, 3):
            depth = (5 if d == 1 else 4) if big else (4 if d == 1 else 3)
            for i in range(0, len(ops), 1 if big or d == 1 else 4):
                T.append((3 * depth + d, "tree", dict(cls=cls, d=d, depth=depth, firsts=ops[i : i + (1 if big or d == 1 else 4)])))
            T.append((9, "long_history", dict(cls=cls, d=d, n=3 if d < 3 or big else 2)))
        for d in (1, 2, 3) + ((4,) if big else ()):
            T.append((8, "pairs", dict(cls=cls, d=d)))
        if cls.startswith("Cubic"):
            for d in (1, 2, 3):
                T.append((6, "refusals", dict(cls=cls, d=d)))
        for d in (1, 2, 3, 4):
            ns = list(itertools.product((2, 3, 4, 5), repeat=d)) if d < 3 else list(itertools.product((2, 3), repeat=d)) + [(4, 2, 3, 5)[:d]]
            T.append((6, "correspondence", dict(cls=cls, d=d, ns=ns)))
    return T
