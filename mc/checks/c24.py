"""Chebyshev and index building blocks of the Smolyak construction."""
import itertools

import numpy as np

from .. import smolyak_ref as S

from interpolation.smolyak.grid import a_chain, build_B, build_grid, cheby2n, chebyvalto, m_i, phi_chain, poly_inds, s_n, smol_inds
from interpolation.smolyak.util import permute

PROPERTY = "C24"
RULE = (
    "every level to the bound (number of nodes, nested extrema, new extrema and new polynomials of each level); "
    "Chebyshev polynomials of both kinds of every degree to the bound at a set of locations inside, at the ends "
    "and outside of [-1, 1] in arrays of one to three dimensions; every multiset of 2 to 6 numbers over alphabets "
    "of up to 4 (distinct orders, each once); index lists, point lists and basis matrices for every "
    "(dimension, density) of the bound, basis matrices also for every batch size, for given, permuted and partial "
    "index lists, with derivatives. Oracle: trigonometric definitions and integer identities. Bounds: levels to 12, "
    "degrees to 65; nontrivial: beyond the first two levels or degrees"
)
ASSUMPTIONS = ["coordinates and polynomials are compared up to 1e-9 of their magnitude"]


def T(x, n, kind=1):
    """Values of the n-th Chebyshev polynomial of the first or second kind, from their closed forms."""
    x = np.asarray(x, float)
    r = np.empty_like(x)
    inn = np.abs(x) <= 1
    th = np.arccos(np.where(inn, x, 0.0))
    if kind == 1:
        a = np.cos(n * th)
    else:
        s = np.sin(th)
        end = np.abs(s) < 1e-7
        a = np.where(end, np.where(x > 0, 1.0, (-1.0) ** n) * (n + 1), np.sin((n + 1) * th) / np.where(end, 1.0, s))
    t = np.arccosh(np.where(inn, 1.0, np.abs(x)))
    sg = np.where(x > 0, 1.0, (-1.0) ** n)
    if kind == 1:
        b = sg * np.cosh(n * t)
    else:
        sh = np.where(inn, 1.0, np.sinh(t))
        b = sg * np.sinh((n + 1) * t) / np.where(sh == 0, 1.0, sh)
    return np.where(inn, a, b)


X = np.array([-1.0, -0.95, -0.5, -0.1, 0.0, 1e-3, 0.3, 0.7071067811865476, 0.9, 1.0, -1.25, 1.1, 2.0])


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def levels(rec, top):
    for i in range(0, 40):
        rec.states += 1
        rec.transitions += 1
        rec.nontrivial += i > 2
        want = 0 if i == 0 else 1 if i == 1 else 2 ** (i - 1) + 1
        if m_i(i) != want:
            rec.violate(f"m_i({i}) = {m_i(i)}", key="m_i")
            return
    for i in (-1, -2, -7):
        try:
            m_i(i)
        except ValueError:
            continue
        rec.violate(f"m_i({i}) was not refused", key="m_i")
        return
    for n in range(1, top + 1):
        m = 1 if n == 1 else 2 ** (n - 1) + 1
        want = np.array([0.0]) if n == 1 else np.array([-np.cos(np.pi * j / (m - 1)) for j in range(m)])
        got = s_n(n)
        rec.states += 1
        rec.transitions += 3
        rec.traces += 1
        rec.nontrivial += n > 2
        rec.outcome(got)
        if not close(got, want):
            rec.violate(f"s_n({n}) = {np.asarray(got).tolist()[:9]}", key="s_n")
            return
        if n > 1 and got[m // 2] != 0:
            rec.violate(f"the centre of s_n({n}) is {got[m // 2]}", key="s_n")
            return
        A, F = a_chain(n), phi_chain(n)
        top_ = max(n, 2)
        if sorted(A) != list(range(1, top_ + 1)) or sorted(F) != list(range(1, top_ + 1)):
            rec.violate(f"levels of a_chain({n}), phi_chain({n}): {sorted(A)}, {sorted(F)}", key="chain")
            return
        done, first = [], 1
        for l in range(1, top_ + 1):
            big = [0.0] if l == 1 else [-np.cos(np.pi * j / 2 ** (l - 1)) for j in range(2 ** (l - 1) + 1)]
            new = [x for x in big if not done or np.min(np.abs(np.array(done) - x)) > 1e-12]
            if not close(sorted(A[l]), sorted(new)):
                rec.violate(f"a_chain({n})[{l}] = {list(A[l])[:9]}, expected {new[:9]}", key="chain")
                return
            done += new
            if list(F[l]) != list(range(first, first + len(new))):
                rec.violate(f"phi_chain({n})[{l}] = {list(F[l])[:9]}, expected from {first}, {len(new)} of them", key="chain")
                return
            first += len(new)
    rec.sample(dict(levels=top, nodes_of_last=m))


def chebyshev(rec, degrees):
    shapes = [(13,), (1,), (13, 1), (1, 13), (2, 6), (3, 4), (3, 2, 2), (0,), (2, 0)]
    for n in degrees:
        for shape in shapes:
            k = int(np.prod(shape))
            for rot in (0, 5) if k < 13 else (0,):
                x = np.roll(X, -rot)[:k].reshape(shape)
                for kind in (1.0, 2.0, 1, 2):
                    keep = x.copy()
                    r = cheby2n(x, n, kind)
                    rec.states += 1
                    rec.transitions += 1
                    rec.traces += 1
                    rec.nontrivial += n > 2
                    want = np.array([T(x, j, kind) for j in range(n + 1)])
                    # the recurrence amplifies rounding with the degree
                    if not close(r, want, 1e-9 if n < 20 else 1e-8) or not np.array_equal(x, keep):
                        rec.violate(f"cheby2n(array{shape}, {n}, kind={kind}): wrong values or location changed", key="cheby2n")
                        return
                    rec.outcome(r[-1])
                    if len(shape) == 2 and n >= 3:
                        r = chebyvalto(x, n, kind)
                        rec.transitions += 1
                        want = np.hstack([T(x, j, kind) for j in range(1, n)])
                        if not close(r, want, 1e-9 if n < 20 else 1e-8):
                            rec.violate(f"chebyvalto(array{shape}, {n}, kind={kind}): wrong values", key="chebyvalto")
                            return
        # lists and numbers are accepted by cheby2n
        for x in (0.3, [0.1, -0.4], [[0.2], [1.0]], 1):
            if not close(cheby2n(x, n), np.array([T(x, j) for j in range(n + 1)])):
                rec.violate(f"cheby2n({x}, {n})", key="cheby2n")
                return
            rec.transitions += 1
    rec.sample(dict(degrees=list(degrees)))


def orders(rec, length, alphabet):
    for ms in itertools.combinations_with_replacement(range(1, alphabet + 1), length):
        for start in (list(ms), list(ms)[::-1]):
            got = sorted(tuple(t) for t in permute(list(start)))
            rec.states += len(got)
            rec.transitions += len(got)
            rec.traces += 1
            rec.nontrivial += len(set(ms)) > 1
            want = sorted(set(itertools.permutations(ms)))
            if got != want:
                rec.violate(f"permute({start}): {len(got)} orders {got[:6]}, expected {len(want)}", key="permute")
                return
    rec.sample(dict(length=length, alphabet=alphabet))


def matrices(rec, cases):
    for d, mu in cases:
        m = mu if isinstance(mu, int) else np.array(mu)
        what = f"d={d} density {mu}"
        inds = smol_inds(d, m)
        lv = [tuple(int(i) for i in t) for t in inds]
        rec.states += len(lv)
        rec.nontrivial += len(lv)
        if sorted(lv) != sorted(S.levels(d, mu)) or len(set(lv)) != len(lv):
            rec.violate(f"{what}: smol_inds {lv[:6]}", key="smol_inds")
            return
        polys = [tuple(int(i) for i in t) for t in poly_inds(d, m)]
        given = [tuple(int(i) for i in t) for t in poly_inds(d, m, inds)]
        degs = [tuple(i - 1 for i in t) for t in polys]
        if sorted(degs) != sorted(S.degrees(d, mu)) or given != polys:
            rec.violate(f"{what}: poly_inds {polys[:6]}", key="poly_inds")
            return
        G = build_grid(d, m)
        if not np.array_equal(G, build_grid(d, m, inds)) or len(G) != len(polys):
            rec.violate(f"{what}: build_grid with given and computed indices differ", key="build_grid")
            return
        # part of the level vectors: the corresponding points and polynomials, in order
        part = list(inds)[::2]
        pg, pp = build_grid(d, m, part), poly_inds(d, m, part)
        allp = dict()
        for l in inds:
            one = poly_inds(d, m, [l])
            allp[tuple(l)] = (one, build_grid(d, m, [l]))
        cat = [tuple(t) for l in part for t in allp[tuple(l)][0]]
        if [tuple(t) for t in pp] != cat or not np.array_equal(pg, np.concatenate([allp[tuple(l)][1] for l in part])):
            rec.violate(f"{what}: points or polynomials of part of the level vectors", key="part")
            return
        rec.transitions += 6
        P = S.locations(d, -1.2, 1.2, 9)
        V, D = S.basis(degs, -np.ones(d), np.ones(d), P)
        perm = list(range(len(polys)))[::-1]
        some = perm[:: max(1, len(perm) // 7)]
        for N in (len(P), 0, 1, 2):
            for sel, b in ((None, None), (range(len(polys)), polys), (perm, [polys[i] for i in perm]), (some, [polys[i] for i in some]), (some[:1], [polys[i] for i in some[:1]])):
                cols = list(range(len(polys))) if sel is None else list(sel)
                for lay in ("C", "F"):
                    x = np.array(P[:N], order=lay)
                    keep = x.copy()
                    B = build_B(d, m, x, b)
                    B2, dB = build_B(d, m, x, b, True)
                    rec.transitions += 2
                    rec.traces += 2
                    rec.states += 1
                    rec.nontrivial += 1
                    tol = 1e-8
                    if not close(B, V[:N][:, cols], tol) or not close(B2, V[:N][:, cols], tol):
                        rec.violate(f"{what}: build_B at {N} locations, {len(cols)} polynomials", key="build_B")
                        return
                    if not close(dB, D[:N][:, :, cols].transpose(2, 1, 0), tol) or not np.array_equal(x, keep):
                        rec.violate(f"{what}: derivatives of build_B at {N} locations, {len(cols)} polynomials", key="build_B derivatives")
                        return
                    rec.outcome(B)
        # one array filled again and again
        buf = {}
        for Q in S.structured(d, -np.ones(d), np.ones(d)):
            x = buf.setdefault(Q.shape, np.empty(Q.shape))
            x[...] = Q
            V, D = S.basis(degs, -np.ones(d), np.ones(d), Q)
            rec.transitions += 2
            rec.traces += 2
            rec.states += 1
            B2, dB = build_B(d, m, x, polys, True)
            if not close(build_B(d, m, x), V, 1e-8) or not close(B2, V, 1e-8) or not close(dB, D.transpose(2, 1, 0), 1e-8):
                rec.violate(f"{what}: build_B at {Q.tolist()}", key="build_B")
                return
            if not close(cheby2n(x, 5), np.array([T(Q, j) for j in range(6)])):
                rec.violate(f"cheby2n at {Q.tolist()}", key="cheby2n")
                return
    rec.sample(dict(d=d, mu=mu, polynomials=len(polys)))


def tasks(tier):
    big = tier == "thorough"
    T_ = [(3, "levels", dict(top=15 if big else 12))]
    for k in range(4):
        T_.append((4, "chebyshev", dict(degrees=list(range(1 + k, 130 if big else 66, 4)))))
    for length, al in [(2, 6), (3, 5), (4, 4), (5, 4), (6, 3)] + ([(7, 3), (8, 2), (6, 4)] if big else []):
        T_.append((3, "orders", dict(length=length, alphabet=al)))
    seen = []
    for d, mu, _, _ in S.grids(tier):
        if (d, mu) not in seen:
            seen.append((d, mu))
    size = lambda c: len(S.degrees(*c))
    seen = sorted((c for c in seen if size(c) <= (1500 if big else 500)), key=size)
    n = 16
    for i in range(n):
        T_.append((5, "matrices", dict(cases=seen[i::n])))
    return T_
