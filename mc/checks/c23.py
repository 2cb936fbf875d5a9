"""Copies of objects, and the arrays objects were built from."""
import copy
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import core
from .. import oracle as O
from .. import smolyak_ref as S

from interpolation.complete_poly import CompletePolynomial
from interpolation.smolyak import SmolyakGrid, SmolyakInterp
from interpolation.splines import CubicSpline, CubicSplines, LinearSpline, LinearSplines

PROPERTY = "C23"
RULE = (
    "every sequence up to the depth of: set (or fit, or fit with damping) one of two data sets, evaluate, read the "
    "grid, copy, deepcopy, pickle and restore (any object of the pool, which grows to three), overwrite every array "
    "that was handed to a constructor (and, except for linear splines, to a setter), on linear and cubic splines "
    "(scalar and vector-valued, d=1..3), complete polynomials and Smolyak interpolants (isotropic and not). Model: "
    "the data last accepted by each object of the pool; every result is compared when returned and at the end, when "
    "all objects are evaluated again. Objects pickled after every history of length 2 are also restored and "
    "evaluated in another interpreter. Depth 4 (quick), 5 (thorough); nontrivial: histories with a copy"
)
ASSUMPTIONS = [
    "the array given to LinearSpline(s).set_values is not overwritten (it may be shared by design)",
    "shallow copies (copy.copy) made while an object has no data yet are included",
    "results are compared up to 1e-9 of the magnitude of the data",
]
BOUNDS = [(0.0, 1.0, 4), (-2.0, 0.5, 3), (5.0, 15.0, 2)]
CLS = dict(LinearSpline=LinearSpline, LinearSplines=LinearSplines, CubicSpline=CubicSpline, CubicSplines=CubicSplines)


class Spline:
    damped = False

    def __init__(self, cls, d):
        self.cls, self.d, self.vec = cls, d, cls.endswith("s")
        g = BOUNDS[:d]
        self.a, self.b, self.n = ([x[i] for x in g] for i in range(3))
        u = np.mod(np.outer(np.arange(1, 5) * 1.0, np.sqrt([2.0, 3.0, 5.0][:d])), 1.0) * 1.4 - 0.2
        self.P = np.array(self.a) + (np.array(self.b) - np.array(self.a)) * u
        self.ref = []
        for k in (0, 1):
            v = self.data(k)
            W = []
            for i in range(d):
                if cls.startswith("Cubic"):
                    W.append(O.cub_weights(self.a[i], self.b[i], self.n[i], self.P[:, i], "linear", 0))
                else:
                    W.append(O.lin_weights(np.linspace(self.a[i], self.b[i], self.n[i]), self.P[:, i], "linear", 0))
            let = "abc"[:d]
            x = "x" if self.vec else ""
            self.ref.append(np.einsum(",".join("n" + c for c in let) + "," + let + x + "->n" + x, *W, v))
        self.grid_ref = np.array(np.meshgrid(*[np.linspace(*x) for x in g], indexing="ij")).reshape(d, -1)
        if cls.startswith("Cubic"):
            self.grid_ref = self.grid_ref.T.copy()

    def data(self, k):
        nsp = (2 + k,) if self.vec else ()
        return O.generic(tuple(self.n) + nsp, 3 + k)

    def make(self, handed):
        a, b, n = np.array(self.a), np.array(self.b), np.array(self.n)
        handed += [a, b, n]
        return CLS[self.cls](a, b, n)

    def set(self, o, k, handed):
        v = self.data(k)
        if self.cls.startswith("Cubic"):
            handed.append(v)
        o.set_values(v)

    def evaluate(self, o):
        return np.asarray(o(self.P))

    def grid(self, o):
        return o.grid

    def result(self, state):
        return self.ref[state[0]]


class Poly:
    damped = True

    def __init__(self, n, deg, vec):
        self.n, self.deg, self.vec = n, deg, vec
        m = 3 * int(np.prod([deg + i + 1 for i in range(n)]) / np.prod([i + 1 for i in range(n)]))
        self.s = 2 * np.mod(np.outer(np.arange(1, m + 1) * 1.0, np.sqrt([2.0, 3.0, 5.0][:n])), 1.0) - 1
        self.P = 2 * np.mod(np.outer(np.arange(1, 5) * 1.0, np.sqrt([7.0, 11.0, 13.0][:n])), 1.0) - 1
        self.ref = [self.f(k, self.P) for k in (0, 1)]

    def f(self, k, s):
        y = 0.3 + k - s[:, 0] * (1 + k) + (s.sum(1)) ** self.deg
        return np.column_stack([y, 2 - y * (k + 1) + s[:, -1]]) if self.vec else y

    def make(self, handed):
        return CompletePolynomial(self.n, self.deg)

    def set(self, o, k, handed, damp=0.0):
        s, y = self.s.copy(), self.f(k, self.s)
        handed += [s, y]
        o.fit_values(s, y, damp)

    def evaluate(self, o):
        return np.asarray(o(self.P))

    grid = None

    def result(self, state):
        r = 0
        for k, damp in state:
            r = (1 - damp) * self.ref[k] + damp * r
        return r


class Smolyak:
    damped = False

    def __init__(self, d, mu, vec):
        self.d, self.mu, self.vec = d, mu, vec
        self.lb, self.ub = np.array([0.5, -3.0, 10.0][:d]), np.array([1.0, 2.0, 12.5][:d])
        self.P = S.locations(d, self.lb, self.ub, 4)
        self.ref = [self.f(k, self.P) for k in (0, 1)]
        self.grid_ref = None

    def f(self, k, s):
        y = 0.3 + k - s[:, 0] * (1 + k) + s[:, 1] ** 2
        return np.column_stack([y, 2 - y * (k + 1) + s[:, -1]]) if self.vec else y

    def make(self, handed):
        lb, ub = self.lb.copy(), self.ub.copy()
        mu = self.mu if isinstance(self.mu, int) else np.array(self.mu)
        handed += [lb, ub] + ([] if isinstance(mu, int) else [mu])
        sg = SmolyakGrid(self.d, mu, lb, ub)
        if self.grid_ref is None:
            self.grid_ref = sg.grid.copy()  # C14 says what it has to be
        return SmolyakInterp(sg, self.f(0, sg.grid))

    def set(self, o, k, handed):
        y = self.f(k, o.sg.grid)
        handed.append(y)
        o.update_theta(y)

    def evaluate(self, o):
        return np.asarray(o.interpolate(self.P))

    def grid(self, o):
        return o.sg.grid

    def result(self, state):
        return self.ref[state[0]]


def adapter(spec):
    return {"spline": Spline, "poly": Poly, "smolyak": Smolyak}[spec[0]](*spec[1:])


COPY = dict(
    copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda o: pickle.loads(pickle.dumps(o)), pickle0=lambda o: pickle.loads(pickle.dumps(o, 0))
)
SHORT = ["copy", "deepcopy", "pickle"]


def moves(A, states):
    """Operations enabled in a model state: tuple with the data of each object (None: no data yet)."""
    out = []
    for i, st in enumerate(states):
        out += [("set", i, 0), ("set", i, 1)]
        if A.damped and st is not None:
            out.append(("damp", i, 1))
        if st is not None:
            out.append(("eval", i))
        if A.grid is not None:
            out.append(("grid", i))
        if len(states) < 3:
            out += [(c, i) for c in SHORT]
    out.append(("overwrite",))
    return out


def step(A, states, m):
    s = list(states)
    if m[0] == "set":
        s[m[1]] = ((m[2], 0.0),) if A.damped else (m[2],)
    elif m[0] == "damp":
        s[m[1]] = s[m[1]] + ((m[2], 0.25),)
    elif m[0] in COPY:
        s.append(s[m[1]])
    return tuple(s)


def initial(A):
    return (((0,) if isinstance(A, Smolyak) else None),)


def check(rec, A, hist, what, r, exp):
    r = np.asarray(r)
    if r.shape != exp.shape or not np.all(np.abs(r - exp) <= 1e-9 * (1 + np.abs(exp).max()) * 30):
        rec.violate(f"{type(A).__name__} {getattr(A, 'cls', '')} after {hist}: {what}: got {r.tolist()} expected {exp.tolist()}", key=what, history=[list(h) for h in hist])
        return False
    return True


def play(rec, A, hist):
    handed = []
    pool = [A.make(handed)]
    states = initial(A)
    kept = []
    for m in hist:
        if m[0] == "set":
            A.set(pool[m[1]], m[2], handed)
        elif m[0] == "damp":
            A.set(pool[m[1]], m[2], handed, 0.25)
        elif m[0] in COPY:
            pool.append(COPY[m[0]](pool[m[1]]))
        elif m[0] == "overwrite":
            for x in handed:
                x[...] = 77
            handed = []
        states = step(A, states, m)
        if m[0] == "eval":
            r = A.evaluate(pool[m[1]])
            if not check(rec, A, hist, "evaluation", r, A.result(states[m[1]])):
                return None
            kept.append((r, r.copy()))
        elif m[0] == "grid":
            g = A.grid(pool[m[1]])
            if not check(rec, A, hist, "grid", g, A.grid_ref):
                return None
            kept.append((g, g.copy()))
        rec.transitions += 1
    rec.traces += 1
    rec.nontrivial += len(pool) > 1
    for i, o in enumerate(pool):
        if states[i] is not None:
            r = A.evaluate(o)
            rec.outcome(r)
            if not check(rec, A, hist, "evaluation of object %d at the end" % i, r, A.result(states[i])):
                return None
        if A.grid is not None and not check(rec, A, hist, "grid at the end", A.grid(o), A.grid_ref):
            return None
    for r, c in kept:
        if not np.array_equal(r, c):
            rec.violate(f"{type(A).__name__} after {hist}: a result already returned changed", key="returned", history=[list(h) for h in hist])
            return None
    return pool


def histories(rec, spec, depth, first=None):
    A = adapter(spec)
    seen = set()

    def go(hist, states):
        seen.add(states)
        if len(hist) == depth:
            return play(rec, A, hist) is not None
        for k, m in enumerate(moves(A, states)):
            if not hist and first is not None and k % first[1] != first[0]:
                continue
            if not go(hist + (m,), step(A, states, m)):
                return False
        return True

    go((), initial(A))
    rec.states += rec.traces
    rec.counters["distinct model states"] += len(seen)
    rec.sample(dict(object=str(spec), depth=depth, histories=rec.traces))


OTHER = """
import pickle, sys
sys.path[:0] = [sys.argv[2], sys.argv[3]]
import warnings
warnings.filterwarnings("ignore")
from mc.checks import c23
A = c23.adapter(pickle.load(open(sys.argv[1] + ".spec", "rb")))
res = []
for b in pickle.load(open(sys.argv[1], "rb")):
    try:
        o = pickle.loads(b)
        r = A.evaluate(o)
        A.set(o, 1, [])
        res.append((r, None if A.grid is None else A.grid(o), A.evaluate(o)))
    except Exception as e:
        res.append(repr(e))
pickle.dump(res, open(sys.argv[1] + ".out", "wb"))
"""


def across(rec, spec):
    """Restored in another interpreter, where it also accepts new data."""
    A = adapter(spec)
    todo, exp = [], []

    def go(hist, states):
        if len(hist) == 2:
            pool = play(rec, A, hist)
            if pool is None:
                return False
            for o, st in zip(pool, states):
                if st is not None:
                    for proto in (0, 2, pickle.HIGHEST_PROTOCOL):
                        todo.append(pickle.dumps(o, proto))
                        exp.append((hist, A.result(st)))
            return True
        return all(go(hist + (m,), step(A, states, m)) for m in moves(A, states))

    if not go((), initial(A)):
        return
    with tempfile.TemporaryDirectory(prefix="verif-mc-") as tmp:
        f = os.path.join(tmp, "objects")
        pickle.dump(todo, open(f, "wb"))
        pickle.dump(spec, open(f + ".spec", "wb"))
        r = subprocess.run([sys.executable, "-B", "-c", OTHER, f, core.REPO, core.VERIF], capture_output=True, text=True)
        if not os.path.exists(f + ".out"):
            rec.violate(f"{spec}: restoring in another interpreter: {r.stderr[-400:]}", key="other")
            return
        got = pickle.load(open(f + ".out", "rb"))
    new = A.ref[1]
    for g, (hist, e) in zip(got, exp):
        rec.transitions += 3
        rec.states += 1
        rec.traces += 1
        rec.nontrivial += 1
        if isinstance(g, str):
            rec.violate(f"{spec}: restored in another interpreter after {hist}: {g}", key="other")
            return
        if not check(rec, A, hist, "evaluation in another interpreter", g[0], e):
            return
        if g[1] is not None and not check(rec, A, hist, "grid in another interpreter", g[1], A.grid_ref):
            return
        if not check(rec, A, hist, "new data in another interpreter", g[2], new):
            return


def tasks(tier):
    specs = [("spline", c, d) for c in sorted(CLS) for d in (1, 2, 3)]
    other = [("poly", n, g, v) for n, g in ((2, 2), (1, 3), (3, 1)) for v in (False, True)]
    other += [("smolyak", d, mu, v) for d, mu in ((2, 2), (3, [1, 2, 1]), (2, [2, 1])) for v in (False, True)]
    depth = 4 if tier == "quick" else 5
    T = []
    for s in specs + other:
        d = depth - 1 if s[0] == "spline" and s[2] == 3 or s[0] == "smolyak" else depth
        T.append((5, "histories", dict(spec=s, depth=d)))
        T.append((4, "across", dict(spec=s)))
    return T
