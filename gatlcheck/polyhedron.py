"""Emptiness of the polyhedron a trace's comparisons describe: each monomial is one dimension (with the bounds its shape
implies: even powers and absolute values are non-negative, |x| is x or -x).  Used to discard traces that no input follows."""
from fractions import Fraction as Fr
from itertools import product
from . import ring
from .ring import V

NEG, ZER, POS = -1, 0, 1


def _max_eps(rows):
    """rows: list of (coeffs dict, const, strict): sum + const >= (eps if strict else 0).  True when feasible with eps > 0.
    Exact simplex (Bland's rule) on: maximise eps subject to the rows, eps <= 1."""
    names = sorted({v for r in rows for v in r[0]})
    idx = {}
    for v in names:
        idx[v] = (2 * len(idx), 2 * len(idx) + 1)
    nv = 2 * len(names)
    E = nv                                 # eps
    A, b = [], []
    for co, c, strict in rows:             # -(sum) + eps <= const
        row = [Fr(0)] * (nv + 1)
        for v, k in co.items():
            p, m = idx[v]
            row[p] -= Fr(k)
            row[m] += Fr(k)
        if strict:
            row[E] += 1
        A.append(row)
        b.append(Fr(c))
    row = [Fr(0)] * (nv + 1)
    row[E] = Fr(1)
    A.append(row)
    b.append(Fr(1))
    m, n = len(A), nv + 1
    # phase 1 with one artificial variable
    T = [A[i] + [Fr(1) if j == i else Fr(0) for j in range(m)] + [Fr(-1)] + [b[i]] for i in range(m)]
    basis = [n + i for i in range(m)]
    art = n + m
    W = n + m + 1

    def pivot(T, z, basis, r, c):
        pr = T[r]
        pv = pr[c]
        T[r] = pr = [x / pv for x in pr]
        for i in range(len(T)):
            if i != r and T[i][c]:
                k = T[i][c]
                T[i] = [x - k * y if y else x for x, y in zip(T[i], pr)]
        if z[c]:
            k = z[c]
            z[:] = [x - k * y if y else x for x, y in zip(z, pr)]
        basis[r] = c

    def solve(T, z, basis, forbid=()):
        for _ in range(4000):
            c = next((j for j in range(W) if z[j] < 0 and j not in forbid), None)
            if c is None:
                return True
            r, best = None, None
            for i in range(len(T)):
                if T[i][c] > 0:
                    q = T[i][W] / T[i][c]
                    if best is None or q < best or (q == best and basis[i] < basis[r]):
                        r, best = i, q
            if r is None:
                return True
            pivot(T, z, basis, r, c)
        return None
    if min(T[i][W] for i in range(m)) < 0:
        z = [Fr(0)] * (W + 1)
        z[art] = Fr(1)
        r = min(range(m), key=lambda i: T[i][W])
        pivot(T, z, basis, r, art)
        if solve(T, z, basis) is None:
            return True
        if -z[W] > 0:
            return False
        if art in basis:
            r = basis.index(art)
            c = next((j for j in range(n + m) if T[r][j]), None)
            if c is not None:
                pivot(T, z, basis, r, c)
    z = [Fr(0)] * (W + 1)
    z[E] = Fr(-1)
    for i, bv in enumerate(basis):
        if bv == E:
            z = [x + y for x, y in zip(z, T[i])]
    if solve(T, z, basis, forbid=(art,)) is None:
        return True
    return z[W] > 0


def _rows(d, signs):
    """Alternatives (lists of rows) equivalent to sign(d) in signs."""
    co = {m: c for m, c in d.t.items() if m}
    k = d.t.get((), 0)
    nco = {m: -c for m, c in co.items()}
    signs = frozenset(signs)
    if signs == {POS}:
        return [[(co, k, True)]]
    if signs == {NEG}:
        return [[(nco, -k, True)]]
    if signs == {ZER}:
        return [[(co, k, False), (nco, -k, False)]]
    if signs == {POS, ZER}:
        return [[(co, k, False)]]
    if signs == {NEG, ZER}:
        return [[(nco, -k, False)]]
    if signs == {NEG, POS}:
        return [[(co, k, True)], [(nco, -k, True)]]
    return [[]]


def feasible(facts, limit=32):
    """False only when no assignment of the monomials satisfies every comparison on the trace."""
    items = [(V(dict(k)), s) for k, s in facts.s.items()]
    if not items:
        return True
    mons = {m for d, _ in items for m in d.t if m}
    base, alts = [], []
    for d, s in items:
        a = _rows(d, s)
        if len(a) == 1:
            base += a[0]
        else:
            alts.append(a)
    for m in mons:
        if ring._nonneg_poly(V({m: 1})):
            base.append(({m: 1}, 0, False))
        if len(m) == 1 and m[0][1] == 1:
            key = ring.atom_key(m[0][0])
            if key[0] == 'f' and key[1] == 'abs':
                x = V(dict(key[2]))
                up = []
                for sg in (1, -1):
                    base += _rows(V({m: 1}) - x.scale(sg), {POS, ZER})[0]
                    up.append([r for a in _rows(V({m: 1}) - x.scale(sg), {ZER}) for r in a])
                alts.append(up)
    if not _max_eps(base):
        return False
    # alternatives one at a time; those with a single possible branch are kept
    again = True
    while again:
        again = False
        rest = []
        for a in alts:
            ok = [r for r in a if _max_eps(base + r)]
            if not ok:
                return False
            if len(ok) == 1:
                base += ok[0]
                again = True
            else:
                rest.append(ok)
        alts = rest
    n = 1
    for a in alts:
        n *= len(a)
    if n > limit:
        return True
    return any(_max_eps(base + [r for c in choice for r in c]) for choice in product(*alts))
