"""C32: meet, join and plunge of pairs of blades with a known intersection and union."""
from ..common import *
from .algebra import Fr
from ..ring import vabs, subst_abs

GUARD = 'if (!(std::abs(a[0]) >= 1 && std::abs(b[0]) >= 1)) return; '
FORMS = (('meet_and_join', False), ('fast_meet_and_join', True))


def vectors(n, style):
    """n independent vectors of small integer coordinates."""
    if style == 0:
        return [{1 << i: 1} for i in range(n)]
    if style == 1:
        return [{1 << ((i * (n - 1) + 1) % n): 1} for i in range(n)]
    if style == 2:
        return [{1 << i: 1, **({1 << (i + 1): 2} if i + 1 < n else {})} for i in range(n)]
    return [{1 << i: 2, **{1 << j: (-1) ** (i + j) for j in range(n) if j != i and (i + j) % 3}} for i in range(n)]


def wedge(alg, vs):
    r = {0: ONE}
    for v in vs:
        r = alg.op(r, {b: V.const(Fr(c)) for b, c in v.items()})
    return clean(r)


def src(m, grade_, coefs, name, k, kind):
    """Statements that define `name`: k times the blade."""
    n = m.n
    if kind == 'native':
        (b, c), = coefs.items()
        return 'auto %s = %s; ' % (name, '(%d * %s) * (%s)' % (c, k, m.blade_src(b)) if b else 'scalar(%d * %s)' % (c, k))
    s = 'double %s_[%d] = {}; ' % (name, 1 << n)
    s += ''.join('%s_[%d] = %s; ' % (name, b, k if c == 1 else '%d * %s' % (c, k)) for b, c in coefs.items())
    t = 'full_multivector_t<double, %d>()' % n if kind == 'full' else 'full_kvector_t<double, %d, %d>()' % (n, grade_)
    return s + 'auto %s = fill(%s, %s_); ' % (name, t, name)


def guarded(dec):
    return dec(ONE - vabs(A(0)), '<=') and dec(ONE - vabs(B(0)), '<=') and all(dec(v, '>') or dec(v, '<') for v in (A(0), B(0)))


def plain(got, dec):
    """The outputs for the signs of the factors that the case has."""
    def so(v):
        return None if v.is_const() else 1 if dec(v, '>') else -1 if dec(v, '<') else 0
    for i in got:
        got[i] = subst_abs(got[i], so)


def relate(ref, off, got, dec, want, why):
    """The output at off must be a non-zero multiple of ref: returns the factor."""
    p = min(ref)
    g = got.get(off + p, ZERO)
    if not g.t or dec(g, '=='):
        want.update({off + b: v for b, v in ref.items()})
        return None
    f = g * ref[p].pow(-1)
    want.update({off + b: v * f for b, v in ref.items()})
    return f


def meet_join_spec(alg, n, Aa, Bb, M, J, guard=guarded):
    N = 1 << n
    K = clean(alg.op(alg.rcont(Aa, alg.inv(M)), Bb))       # the join that goes with the meet M
    pj = min(J)

    def spec(dec):
        if not guard(dec):
            return ('any',)

        def want(got, dec):
            plain(got, dec)
            w = {}
            mu = relate(M, 0, got, dec, w, 'meet')
            la = relate(J, N, got, dec, w, 'join')
            if mu is not None and la is not None:
                # J = (A rc 1/M) ^ B for this A, B and M, up to orientation
                got[2 * N] = (la * mu * J[pj]).pow(2)
                w[2 * N] = (K[pj] * A(0) * B(0)).pow(2)
            return w
        return ('ret', want)
    return spec


def plunge_spec(alg, n, Aa, Bb, J):
    N = 1 << n
    a, b = scale(Aa, A(0)), scale(Bb, B(0))

    def spec(dec):
        if not guarded(dec):
            return ('any',)

        def want(got, dec):
            plain(got, dec)
            w = {}
            la = relate(J, 0, got, dec, w, 'join')
            if la is not None:
                j = scale(J, la)
                w.update({N + i: v for i, v in clean(alg.op(alg.dual(b, j), alg.dual(a, j))).items()})
            return w
        return ('ret', want)
    return spec


def zero_spec(dec):
    return ('ret', {})


def near_spec(n, u, C, J, tol, scale_):
    """B = A + b0 * (C ^ w): other than A for b0 beyond the tolerance, the same blade within it."""
    N = 1 << n
    pj = min(J)
    k = len(bin(u)) - 2 - bin(u)[2:].count('0')

    def spec(dec):
        apart = dec(vabs(B(0)) - V.const(Fr(tol)), '>')
        if apart and not (dec(B(0), '>') or dec(B(0), '<')):
            return ('any',)

        def want(got, dec):
            w = {}
            if apart:
                plain(got, dec)
                mu, la = relate(C, 0, got, dec, w, 'meet'), relate(J, N, got, dec, w, 'join')
                if mu is not None and la is not None:
                    got[2 * N] = (la * mu * J[pj]).pow(2)
                    w[2 * N] = B(0).pow(2)
                return w
            # the grades of both are those of the operands, and neither vanishes
            for off in (0, N):
                for b in range(N):
                    if bin(b).count('1') == k and off + b in got:
                        w[off + b] = got[off + b]
                g = got.get(off + u, ZERO)
                if not g.t or dec(g, '=='):
                    w[off + u] = ONE
            return w
        return ('ret', want)
    return spec


def near_join(n, k, at):
    """A join of grade k which does not vanish at the blade `at`."""
    def spec(dec):
        def want(got, dec):
            w = {b: v for b, v in got.items() if bin(b).count('1') == k}
            if not w.get(at, ZERO).t:
                w[at] = ONE
            return w
        return ('ret', want)
    return spec


def near_plunge(n, apart):
    """The plunge of A and of the blade B tilted from it by a direction: of their difference beyond the tolerance, of the one blade (a scalar) within it."""
    k = 2 if apart else 0

    def spec(dec):
        def want(got, dec):
            w = {b: v for b, v in got.items() if bin(b).count('1') == k}
            if not any(v.t for v in w.values()):
                w[(1 << k) - 1] = ONE
            return w
        return ('ret', want)
    return spec


def near(ids, q):
    """Pairs of blades that differ by one tilted direction: the tolerance tells whether they are the same."""
    ps = []
    for ns in ('ga2e', 'ga3e') if q else ('ga2e', 'ga3e', 'ga2h', 'ga2m', 'ga4e'):
        m = MODELS[ns]
        n = m.n
        eu = Algebra(diag(*([1] * n)))
        for c in range(n - 1):
            for s in range(n if n < 4 else 1):
                order = [(i + s) % n for i in range(n)]
                C = sum(1 << i for i in order[:c])
                ub, wb = 1 << order[c], 1 << order[c + 1]
                Cb = wedge(eu, [{1 << i: 1} for i in order[:c]])
                J = wedge(eu, [{1 << i: 1} for i in order[:c + 2]])
                a, d = C | ub, C | wb
                sa = wedge(eu, [{1 << i: 1} for i in order[:c + 1]])[a]
                sd = wedge(eu, [{1 << i: 1} for i in order[:c] + [order[c + 1]]])[d]
                # a fixed tilt, with a tolerance on either side of it
                for ti, (tilt, tol, apart) in enumerate((('0.0009765625', '0.125', False), ('0.0009765625', '1e-5', True), ('0.00000000093132257461547851563', '1e-12', True), ('0.25', None, True), ('0.00000000000000000000086736173798840354721', None, False))):
                    for fi, f in enumerate(('plunge', 'fast_plunge', 'fast_meet_and_join', 'fast_join')):
                        if q and (ti + fi + s + c + n) % 3 or f == 'plunge' and n > 3 or not clean(m.alg.sp(J, J)):
                            continue
                        decl = src(m, c + 1, {a: int(sa.const_value())}, 'x', '1.0', 'kvector')
                        decl += 'double y_[%d] = {}; y_[%d] = %d; y_[%d] = %d * %s; auto y = fill(full_kvector_t<double, %d, %d>(), y_); ' % (1 << n, a, int(sa.const_value()), d, int(sd.const_value()), tilt, n, c + 1)
                        t = ', %s' % tol if tol else ''
                        w = '%s: %s of %s and of it tilted by %s towards e%d%s' % (ns, f, text({a: 1}), tilt, order[c + 1] + 1, t)
                        if 'plunge' in f:
                            ps.append(Probe(ids(), m.header, decl + 'dump<%d>(%s(x, y%s), out);' % (n, f, t), near_plunge(n, apart), ns, n * 2.0, w, sizes={'full_vector_t': 8 * n}))
                        else:
                            get = 'auto r = %s(x, y%s); ' % (f, t)
                            get += 'dump<%d>(std::get<1>(r), out);' % n if f == 'fast_meet_and_join' else 'dump<%d>(r, out);' % n
                            ps.append(Probe(ids(), m.header, decl + get, near_join(n, c + 1 + apart, min(J) if apart else a), ns, n * 1.0, w, sizes={'full_vector_t': 8 * n}))
                for ti, tol in enumerate(('1e-3', '0.25', '1e-12', None)):
                    if q and (ti + s + c) % 2:
                        continue
                    decl = src(m, c + 1, {a: int(sa.const_value())}, 'x', '1.0', 'kvector')
                    decl += 'double y_[%d] = {}; y_[%d] = %d; y_[%d] = %d * b[0]; auto y = fill(full_kvector_t<double, %d, %d>(), y_); ' % (1 << n, a, int(sa.const_value()), d, int(sd.const_value()), n, c + 1)
                    t = ', %s' % tol if tol else ''
                    f = 'meet_and_join'
                    ps.append(Probe(ids(), m.header, decl + 'auto r = %s(x, y%s); dump<%d>(std::get<0>(r), out); dump<%d>(std::get<1>(r), out + %d);' % (f, t, n, n, 1 << n),
                                    near_spec(n, a, Cb, J, tol or '1e-8', ONE), ns, n * 2.0, '%s: %s of %s and of it tilted by b[0] towards e%d%s' % (ns, f, text({a: 1}), order[c + 1] + 1, t), sizes={'full_vector_t': 8 * n}))
    return ps


def c32(tier):
    ids = Ids('c32')
    ps = []
    q = tier == 'quick'
    ps += near(ids, q)
    spaces = ['ga1e', 'ga2e', 'ga3e', 'ga2m', 'ga2h', 'ga4e', 'ga2c'] if q else ['ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga2h', 'ga3h', 'ga1m', 'ga2m', 'ga1c', 'ga2c', 'ga5e', 'ga3c']
    for si, ns in enumerate(spaces):
        if ns not in MODELS:
            continue
        m = MODELS[ns]
        n = m.n
        N = 1 << n
        eu = Algebra(diag(*([1] * n)))
        k = 0
        for c in range(n + 1):
            for pa in range(n - c + 1):
                for pb in range(n - c - pa + 1):
                    for style in range(4):
                        k += 1
                        vs = vectors(n, style)
                        C, X, Y = vs[:c], vs[c:c + pa], vs[c + pa:c + pa + pb]
                        if style == 3:
                            # other bases of the same spaces
                            X = [{b: x.get(b, 0) + (C[0].get(b, 0) if C else 0) for b in set(x) | set(C[0] if C else ())} for x in X]
                        try:
                            Aa, Bb, M, J = wedge(eu, C + X), wedge(eu, C + Y), wedge(eu, C), wedge(eu, C + X + Y)
                        except ZeroDivisionError:
                            continue
                        if not J:
                            continue
                        if n == 1 and style or n == 2 and style in (1, 3) and q:
                            continue
                        if n == 3 and q and ns != 'ga3e' and k % 5:
                            continue
                        must = n == 4 and pa >= 2 and pb >= 2 and style in (0, 2) and ns == 'ga4e'
                        if n >= 4 and not must and (k + si) % (23 if q else 4) or n == 5 and k % 5:
                            continue
                        ends = {c + pa, c + pb} & {0, n}     # the others take the compiler too long
                        ints = lambda z: {b: int(v.const_value()) for b, v in z.items()}
                        kind = 'full' if n <= 2 and k % 4 == 3 else 'native' if style < 2 and (k % 3 == 1 or must) else 'kvector'
                        decl = GUARD + src(m, c + pa, ints(Aa), 'x', 'a[0]', kind) + src(m, c + pb, ints(Bb), 'y', 'b[0]', kind)
                        what = 'blades of grades %d and %d (%s, %s)%s' % (c + pa, c + pb, text(ints(Aa)), text(ints(Bb)), {'full': ' in full multivectors', 'native': ' in native form'}.get(kind, ''))
                        tol = ('', ', 1e-6', ', 1.0e-10')[k % 3]
                        for fi, (f, fast) in enumerate(FORMS):
                            if n == 3 and (k // 4 + k + fi) % 2 and (q or ns != 'ga3e') or n >= 4 and not fast and not ends:
                                continue
                            ps.append(Probe(ids(), m.header, decl + 'auto r = %s(x, y%s); dump<%d>(std::get<0>(r), out); dump<%d>(std::get<1>(r), out + %d);' % (f, tol, n, n, N),
                                            meet_join_spec(eu, n, Aa, Bb, M, J), ns, n * 1.5 if n < 4 else 6.0 if fast else 15.0, '%s: %s(%s%s)' % (ns, f, what, tol), sizes={'full_vector_t': 8 * n}))
                        for f, j in (('plunge', 'std::get<1>(meet_and_join(x, y%s))' % tol), ('fast_plunge', 'fast_join(x, y%s)' % tol)):
                            if n > 2 and (k + (f == 'plunge')) % (8 if q else 4) or n >= 4 and f == 'plunge' and not ends or not clean(m.alg.sp(J, J)):
                                continue
                            ps.append(Probe(ids(), m.header, decl + 'dump<%d>(%s, out); dump<%d>(%s(x, y%s), out + %d);' % (n, j, n, f, tol, N),
                                            plunge_spec(m.alg, n, Aa, Bb, J), ns, n * 2.0 if n < 4 else 12.0 if f == 'fast_plunge' else 20.0, '%s: %s(%s%s)' % (ns, f, what, tol), sizes={'full_vector_t': 8 * n}))
    return ps


def text(z):
    return ' + '.join('%s%s' % ('' if v == 1 else '%d ' % v, 'e' + ''.join(str(i + 1) for i in range(8) if b >> i & 1) if b else '1') for b, v in sorted(z.items()))
