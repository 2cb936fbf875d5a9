"""Threads sharing an object: all interleavings up to a preemption bound."""
import itertools

import numpy as np

from .. import oracle as O
from .. import sched

from interpolation.cartesian import cartesian, mlinspace
from interpolation.complete_poly import CompletePolynomial, complete_polynomial, complete_polynomial_der
from interpolation.smolyak import SmolyakGrid, SmolyakInterp
from interpolation.splines import CubicSpline, CubicSplines, LinearSpline, LinearSplines

PROPERTY = "C19"
RULE = (
    "two threads on one object (or on two objects of one class, or calling module functions), each running one or "
    "two operations out of: replace the data (also with another number of functions), evaluate many / one location "
    "/ in place / with derivatives, read the grid; at most one thread replaces data. Every schedule with at most "
    "two preemptions (thorough: three for single operations) at the lines of library code executed (first visits "
    "of each line per operation), and every schedule with one preemption (thorough: two) at the bytecode instructions that can touch shared state, both starting threads, plus the run without preemption. Expected: the results "
    "are those of some sequential order of the operations that respects real time (what each operation returns "
    "sequentially in each state is computed beforehand on private objects); results returned earlier are "
    "unchanged at the end. nontrivial: schedules in which a preemption happens"
)
ASSUMPTIONS = [
    "compiled and numpy code runs atomically (it does not release the interpreter lock)",
    "all code is compiled before the threads start",
]

D = 2
A, B_ = [0.0, -2.0], [1.0, 0.5]
ORD = [4, 3]
PTS = [np.array([[0.1, -1.5], [0.55, 0.1], [0.9, -0.3]]), np.array([[0.77, 0.4], [0.2, -1.9]])]


class Spline:
    def __init__(self, cls, which):
        self.cls = dict(CubicSpline=CubicSpline, CubicSplines=CubicSplines, LinearSpline=LinearSpline, LinearSplines=LinearSplines)[cls]
        self.vec = cls.endswith("s")
        self.name = cls
        self.a, self.b, self.n = (A, B_, ORD) if which == 0 else ([5.0, -1.0], [7.0, 3.0], [3, 5])
        self.w = np.array(self.b) - np.array(self.a)

    def data(self, k):
        # state 2 has another number of functions
        sh = tuple(self.n) + (((3 if k == 2 else 2),) if self.vec else ())
        return O.generic(sh, 3 + k)

    def fresh(self):
        o = self.cls(self.a, self.b, self.n)
        o.set_values(self.data(0))
        return o

    def pts(self, k):
        return np.array(self.a) + (PTS[k] - np.array(A)) / (np.array(B_) - np.array(A)) * self.w

    def ops(self):
        R = {}
        R["set1"] = (1, lambda o: o.set_values(self.data(1)))
        if self.vec:
            R["set2"] = (2, lambda o: o.set_values(self.data(2)))
        R["many"] = (None, lambda o: o(self.pts(0)))
        R["other"] = (None, lambda o: o(self.pts(1)))
        R["one"] = (None, lambda o: o(self.pts(0)[1]))
        R["grid"] = (None, lambda o: o.grid)
        if self.name == "CubicSpline":

            def inplace(o):
                v = np.full(3, np.nan)
                o.interpolate(self.pts(0), v)
                return v

            R["inplace"] = (None, inplace)
            R["direct"] = (None, lambda o: o.interpolate(self.pts(1)[0]))
        if self.name == "CubicSplines":
            R["diff"] = (None, lambda o: o.interpolate(self.pts(0), diff=True))
        return R


class Poly:
    name = "CompletePolynomial"

    def __init__(self, which):
        self.deg = 2 + which
        self.X = O.generic((14, 2), 2 + which)

    def fresh(self):
        p = CompletePolynomial(2, self.deg)
        p.fit_values(self.X, O.generic((14,), 5))
        return p

    def ops(self):
        P = O.generic((4, 2), 7)
        Q = O.generic((2, 2), 8)
        return {
            "set1": (1, lambda o: o.fit_values(self.X, O.generic((14,), 6))),
            "set2": (2, lambda o: o.fit_values(O.generic((20, 2), 9), O.generic((20,), 6))),
            "damped": (3, lambda o: o.fit_values(self.X, O.generic((14,), 7), damp=0.25)),
            "many": (None, lambda o: o(P)),
            "other": (None, lambda o: o(Q)),
            "der": (None, lambda o: o.der(P, 1)),
        }


class Smol:
    name = "SmolyakInterp"
    _grids = {}

    def __init__(self, which, shared_grid=True):
        self.which = which
        if which not in Smol._grids:
            Smol._grids[which] = SmolyakGrid(2, 2 if which == 0 else [1, 2], np.array([-1.0, 0.0]), np.array([2.0, 1.0]))
        self.n = Smol._grids[which].grid.shape[0]

    def fresh(self):
        return SmolyakInterp(Smol._grids[self.which], O.generic((self.n,), 3))

    def ops(self):
        P = np.array([[0.3, 0.2], [-0.5, 0.9], [1.7, 0.4]])
        Q = np.array([[1.1, 0.7]])
        return {
            "set1": (1, lambda o: o.update_theta(O.generic((self.n,), 4))),
            "set2": (2, lambda o: o.update_theta(O.generic((self.n,), 6) * 3)),
            "many": (None, lambda o: o.interpolate(P)),
            "other": (None, lambda o: o.interpolate(Q)),
            "deriv": (None, lambda o: o.interpolate(P, deriv=True)),
            "all": (None, lambda o: o.interpolate(Q, interp=True, deriv=True, deriv_th=True, deriv_X=True)),
        }


class Functions:
    """No object at all: functions of the library called by two threads."""

    name = "functions"

    def __init__(self, which):
        pass

    def fresh(self):
        return SmolyakGrid(2, 2, np.array([-1.0, 0.0]), np.array([2.0, 1.0]))

    def ops(self):
        X = O.generic((2, 6), 3)
        return {
            "mlinspace": (None, lambda o: mlinspace([0.0, 1.0], [1.0, 3.0], [3, 4])),
            "mlinspace2": (None, lambda o: mlinspace([0.0, 5.0], [2.0, 6.0], [3, 4])),
            "cartesian": (None, lambda o: cartesian([np.arange(3.0), np.arange(4.0)], order="F")),
            "basis": (None, lambda o: complete_polynomial(X, 2)),
            "basis2": (None, lambda o: complete_polynomial(X + 1, 2)),
            "der": (None, lambda o: complete_polynomial_der(X, 2, 0)),
            "der2": (None, lambda o: complete_polynomial_der(X, 2, 1)),
            "dom2cube": (None, lambda o: o.dom2cube(np.array([[0.5, 0.5], [1.0, 0.25]]))),
            "cube2dom": (None, lambda o: o.cube2dom(np.array([[0.5, 0.5], [1.0, 0.25]]))),
            "smolyak": (None, lambda o: SmolyakGrid(2, 1, np.array([0.0, 0.0]), np.array([1.0, 2.0])).grid),
            "smolyak2": (None, lambda o: SmolyakGrid(2, 2, np.array([0.0, 0.0]), np.array([1.0, 2.0])).grid),
        }


def kind(name, which):
    if name in ("CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines"):
        return Spline(name, which)
    return {"CompletePolynomial": Poly, "SmolyakInterp": Smol, "functions": Functions}[name](which)


# ------------------------------------------------------------------ sequential specification
def flat(r):
    if r is None:
        return None
    if isinstance(r, BaseException):
        return r
    if isinstance(r, (list, tuple)):
        return [np.array(x, float) for x in r]
    return [np.array(r, float)]


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return False
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or not np.all(np.abs(x - y) <= 1e-10 * (1 + np.abs(y).max(initial=0))):
            return False
    return True


class Spec:
    """What operations return in sequence: obtained by running the sequence on a private object."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.memo = {}

    def run(self, obj, seq):
        key = (obj, seq)
        if key not in self.memo:
            k = self.kinds[obj]
            o = k.fresh()
            ops = k.ops()
            self.memo[key] = flat([ops[s][1](o) for s in seq][-1])
        return self.memo[key]

    def explain(self, labels, order, results):
        hist = {0: (), 1: ()}
        for t, n in order:
            obj, op = labels[t, n]
            hist[obj] += (op,)
            # the state depends on the replacements before it only
            seq = tuple(s for s in hist[obj][:-1] if s.startswith(("set", "damped"))) + (op,)
            if not close(flat(results[t, n]), self.run(obj, seq)):
                return False
        return True


def pair(rec, name, first, second, objects, preemptions, visits=2, opcodes=False):
    """first, second: programs (operation names) of the two threads; objects: which object each thread uses."""
    kinds = {k: kind(name, k) for k in set(objects)}
    spec = Spec(kinds)
    progs = [first, second]
    labels = {(t, n): (objects[t], op) for t in (0, 1) for n, op in enumerate(progs[t])}
    # compile, and record what is returned sequentially
    for t in (0, 1):
        for s in itertools.chain([()], [(x,) for x in first + second if x.startswith(("set", "damped"))]):
            for op in progs[t]:
                if objects[0] == objects[1] or not s or s[0] in progs[t]:
                    spec.run(objects[t], s + (op,))
    allops = {k: v.ops() for k, v in kinds.items()}

    def make():
        objs = {k: v.fresh() for k, v in kinds.items()}
        return [[(op, (lambda f=allops[objects[t]][op][1], o=objs[objects[t]]: f(o))) for op in progs[t]] for t in (0, 1)]

    for run in sched.explore(make, preemptions, visits, opcodes):
        rec.traces += 1
        rec.states += 1 + sum(run.points)
        rec.transitions += sum(run.points)
        rec.nontrivial += bool(run.where)
        errs = [e for e in run.events if e[0] == "return" and isinstance(e[3], BaseException)]
        copies = [(e, flat(e[3])) for e in run.events if e[0] == "return"]
        ok = not errs and sched.linearisable(run.events, lambda order, res: spec.explain(labels, order, res))
        rec.outcome(tuple((t, n) for k, t, n, r in run.events if k == "return"), str(run.where))
        if not ok:
            got = [(e[1], labels[e[1], e[2]][1], repr(e[3])[:160]) for e in run.events if e[0] == "return"]
            rec.violate(
                f"{name}: threads {first} and {second} (objects {objects}), starting with thread {run.start}, switching at {run.where}: "
                f"{'exception ' + repr(errs[0][3]) if errs else 'results not explained by any order'}: {got}",
                key=f"{name}:{'exception' if errs else 'mixture'}",
            )
            return
    rec.sample(dict(object=name, threads=[first, second], schedules=rec.traces))


def returned(rec, name, readers, writer):
    """Results returned by one thread stay what they were while the other one goes on."""
    kinds = {0: kind(name, 0)}
    ops = kinds[0].ops()
    for r1, r2 in itertools.product(readers, repeat=2):
        held = {}

        def make():
            o = kinds[0].fresh()
            held.clear()

            def hold():
                held["r"] = ops[r1][1](o)
                held["c"] = flat(held["r"])
                return held["r"]

            w = [(writer, lambda: ops[writer][1](o))] if writer else []
            return [[("hold", hold)], w + [("read", lambda: ops[r2][1](o))]]

        for run in sched.explore(make, 1):
            rec.traces += 1
            rec.states += 1 + sum(run.points)
            rec.transitions += sum(run.points)
            rec.nontrivial += bool(run.where)
            if not close(flat(held["r"]), held["c"]):
                rec.violate(f"{name}: the result of {r1} changed while another thread ran {writer} and {r2}, switching at {run.where}", key=f"{name}:returned")
                return


CLASSES = ["CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines", "CompletePolynomial", "SmolyakInterp", "functions"]


def tasks(tier):
    big = tier == "thorough"
    T = []
    for name in CLASSES:
        ops = kind(name, 0).ops()
        W = [o for o in ops if o.startswith(("set", "damped"))]
        R = [o for o in ops if o not in W]
        pre = 2
        if name in ("SmolyakInterp", "functions") and not big:
            pre = 1
        for r in R:
            for w in W:
                T.append((10, "pair", dict(name=name, first=[w], second=[r], objects=[0, 0], preemptions=pre if not big else pre + (name not in ("SmolyakInterp", "functions")))))
                T.append((9, "pair", dict(name=name, first=[w], second=[r], objects=[0, 0], preemptions=1 if not big or name == "SmolyakInterp" else 2, opcodes=True)))
                T.append((6, "pair", dict(name=name, first=[w], second=[r], objects=[1, 0], preemptions=1 if not big else 2)))
                T.append((6, "pair", dict(name=name, first=[w], second=[r, r], objects=[0, 0], preemptions=1 if not big else 2)))
        for r, q in itertools.combinations_with_replacement(R, 2):
            T.append((8, "pair", dict(name=name, first=[r], second=[q], objects=[0, 0], preemptions=pre)))
            if name != "functions":
                T.append((4, "pair", dict(name=name, first=[r], second=[q], objects=[1, 0], preemptions=1 if not big else 2)))
        for w1, w2 in itertools.product(W, repeat=2):
            T.append((6, "pair", dict(name=name, first=[w1, w2], second=[R[0]], objects=[0, 0], preemptions=1 if not big else 2)))
            T.append((6, "pair", dict(name=name, first=[w1], second=[w2, R[0]], objects=[1, 0], preemptions=1 if not big else 2)))
            for r in R if big else R[:2]:
                T.append((7, "pair", dict(name=name, first=[w1, w2], second=[r, R[0]], objects=[0, 0], preemptions=1 if not big else 2)))
        if name != "functions":
            T.append((7, "returned", dict(name=name, readers=R, writer=W[0])))
    return T


def warm():
    for name in CLASSES:
        for which in (0, 1):
            k = kind(name, which)
            for op, (_, f) in k.ops().items():
                o = k.fresh()
                f(o)
