"""What the grid constructors accept."""
import itertools

import numpy as np

from interpolation.splines import CGrid, UCGrid, eval_linear

PROPERTY = "C21"
RULE = (
    "UCGrid and CGrid on every tuple of dimension specifications of length 1..3 (quick), 1..4 (thorough, good "
    "and bad ones) over an alphabet of well-formed triples and arrays and of specifications that are wrong in "
    "one way each (bounds equal or reversed or NaN, too few nodes, integer bounds, float or missing or "
    "additional number; arrays sorted or not, repeated or special values, other types; sequences of the wrong kind, arrays of other dimension or length): accepted exactly if "
    "every member is well formed, and then returned as a tuple of the same members. nontrivial: at least one "
    "ill-formed member"
)
ASSUMPTIONS = ["python runs with assertions on"]

nan = float("nan")
inf = float("inf")


def alphabet():
    A = np.array
    tri = [(0.0, 1.0, 2), (-1.0, 1.0, 10), (0.0, 1e-300, 3), (-2e5, -1e5, 1000000), (np.float64(0.5), np.float64(0.75), 4), (np.nextafter(1.0, 0), 1.0, 2)]
    arr = [A([0.0, 1.0]), A([-3.0, 0.5, 10.0]), np.linspace(0, 1, 50), A([0.0, 9.0, 1.0, 9.0])[::2], A([0, 1, 5])]
    bad = [
        (1.0, 0.0, 5), (0.0, 0.0, 5), (1.0, np.nextafter(1.0, 0), 2), (nan, 1.0, 5), (0.0, nan, 5), (0.0, 1.0, 1), (0.0, 1.0, 0), (0.0, 1.0, -3),
        (inf, inf, 3), (-inf, -inf, 3),
        (0, 1, 5), (0, 1.0, 5), (0.0, 1, 5), (0.0, 1.0, 5.0), (0.0, 1.0), (0.0, 1.0, 5, 1), (0.0,), (), (0.0, 1.0, None), (None, 1.0, 3), ("0", "1", 3), (0.0, 1.0, "3"),
        ((0.0, 1.0, 5),), (0.0, 1.0, (5,)), (1j, 2.0, 3), (0.0, 5, 1.0), (5, 0.0, 1.0),
        A([[0.0, 1.0]]), A([[0.0, 1.0], [1.0, 2.0]]), np.zeros((2, 2, 2)), A(3.0), A([1.0]), A([]), np.zeros((1, 5)), np.zeros((5, 1)), np.zeros((0, 5)),
        0.0, 5, None, "grid", {"a": 1}, 1.0 + 2j, object(), (A([0.0, 1.0]), A([0.0, 1.0]), 3), (A([0.0, 1.0]),), [A([0.0, 1.0])],
    ]
    ro = A([2.0, 1.0, 4.0])
    ro.setflags(write=False)
    more = [A([3.0, 2.0, 1.0]), A([1.0, 0.0]), A([0.0, 2.0, 1.0, 3.0]), A([1.0, 1.0, 1.0]), A([0.0, 0.0, 1.0]), A([nan, 1.0, 2.0]), A([-inf, 0.0, inf]), A([1, 0], dtype=np.int32), A([0.5, 0.25, 2.0], dtype=np.float32)]
    more += [A([False, True]), np.linspace(5, 0, 11)[::-1], np.linspace(0, 5, 11)[::-3], ro, A([0.1, 0.1 + 1e-17, 0.2]), A([5e-324, 0.0, -5e-324]), np.linspace(0.0, 1.0, 5), np.zeros(1000)]
    tri2 = [(0.0, 1.0, np.int64(3)), (-inf, 0.0, 2), (-1e308, 1e308, 3), (5.0, inf, 2**40), (-0.0, 5e-324, 2)]
    return [("triple", t) for t in tri] + [("array", t) for t in arr] + [("bad", t) for t in bad] + [("array", t) for t in more] + [("triple", t) for t in tri2]


def same(x, y):
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.dtype == y.dtype and x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == 'f')
    return type(x) is type(y) and x == y and all(type(p) is type(q) for p, q in zip(x, y))


def explore(rec, first, length, few):
    alpha = alphabet()
    if few:  # deeper tuples: a representative of every class
        alpha = [alpha[i] for i in (0, 1, 6, 7, 11, 12, 16, 21, 26, 38, 40, 42, 49, 51)]
    for name, fun, good in (("UCGrid", UCGrid, {"triple"}), ("CGrid", CGrid, {"triple", "array"})):
        heads = [alpha[i] for i in first if i < len(alpha)]
        tup = heads
        for tup in itertools.product(heads, *[alpha] * (length - 1)):
            kinds = [k for k, _ in tup]
            args = [v for _, v in tup]
            copies = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
            expected = set(kinds) <= good
            rec.states += 1
            rec.transitions += 1
            rec.traces += 1
            rec.nontrivial += not expected
            try:
                g = fun(*args)
            except Exception:
                g = None
            rec.outcome(name, tuple(kinds), g is None)
            if (g is not None) != expected:
                rec.violate(f"{name}{tuple(args)} {'accepted' if g is not None else 'refused'}", key=f"{name}:{'accepted' if g is not None else 'refused'}")
                return
            if g is not None:
                if type(g) is not tuple or len(g) != len(args) or not all(same(a, b) for a, b in zip(copies, g)):
                    rec.violate(f"{name}{tuple(args)} returned {g}", key=f"{name}:result")
                    return
            if not all(same(a, b) for a, b in zip(copies, args) if isinstance(a, np.ndarray)):
                rec.violate(f"{name}{tuple(args)} modified its arguments", key=f"{name}:mutation")
                return
    rec.sample(dict(length=length, last=repr(tup)[:200]))


def usable(rec):
    """Accepted grids are evaluated like the tuples they were built from."""
    T = [(0.0, 1.0, 3), (-1.0, 1.0, 4), np.array([0.0, 0.1, 1.0]), np.array([-1.0, 0.0, 0.5, 2.0])]
    for d in (1, 2):
        for g in itertools.product(T, repeat=d):
            grid = CGrid(*g)
            shape = tuple(len(x) if isinstance(x, np.ndarray) else x[2] for x in g)
            nodes = [x if isinstance(x, np.ndarray) else np.linspace(*x) for x in g]
            V = np.arange(float(np.prod(shape))).reshape(shape) ** 1.5
            for idx in np.ndindex(*shape):
                p = np.array([n[i] for n, i in zip(nodes, idx)])
                rec.states += 1
                rec.transitions += 1
                rec.traces += 1
                r = eval_linear(grid, V, p)
                if abs(r - V[idx]) > 1e-9 * (1 + abs(V).max()):
                    rec.violate(f"eval_linear on {grid} at node {idx}: {r} instead of {V[idx]}", key="usable")
                    return


def tasks(tier):
    n = len(alphabet())
    T = [(1, "explore", dict(first=list(range(n)), length=1, few=False)), (5, "explore", dict(first=list(range(n)), length=2, few=False)), (99, "usable", {})]
    for k in range(0, n, 4):
        T.append((20, "explore", dict(first=list(range(k, min(n, k + 4))), length=3, few=tier != "thorough")))
    for k in range(14):
        T.append((20, "explore", dict(first=[k], length=4, few=True)))
        if tier == "thorough":
            T.append((30, "explore", dict(first=[k], length=5, few=True)))
    return T
