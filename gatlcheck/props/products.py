"""C01-C06: the products and sign-change operations against the definitions, for general operands."""
from ..common import *

BIN_OPS = {
    'gp': ('gp({0}, {1})', '{0} * {1}', lambda g, x, y: g.gp(x, y)),
    'op': ('op({0}, {1})', '{0} ^ {1}', lambda g, x, y: g.op(x, y)),
    'rp': ('rp({0}, {1})', None, lambda g, x, y: g.rp(x, y)),
    'lcont': ('lcont({0}, {1})', '{0} < {1}', lambda g, x, y: g.lcont(x, y)),
    'rcont': ('rcont({0}, {1})', '{0} > {1}', lambda g, x, y: g.rcont(x, y)),
    'dot': ('dot({0}, {1})', '{0} | {1}', lambda g, x, y: g.dot(x, y)),
    'hip': ('hip({0}, {1})', None, lambda g, x, y: g.hip(x, y)),
    'sp': ('sp({0}, {1})', None, lambda g, x, y: g.sp(x, y)),
    'cp': ('cp({0}, {1})', None, lambda g, x, y: g.cp(x, y)),
}

# which algebras are covered by one full x full probe, and which by one probe per pair of grades
FULL = ['ga1e', 'ga2e', 'ga3e', 'ga1h', 'ga2h', 'ga1p', 'ga2p', 'ga1m', 'ga1c', 'ga4e', 'ga3h', 'ga3p', 'ga2m', 'ga2c']
PAIRS = ['ga5e', 'ga4h', 'ga4p', 'ga3m', 'ga3c']


def pair_probes(ids, op, ns, tier, use_op=False, only=None):
    m = MODELS[ns]
    n = m.n
    fn, oper, ref = BIN_OPS[op]
    src = oper if (use_op and oper) else fn
    out = []
    for r in range(n + 1):
        for s in range(n + 1):
            if only and not only(r, s):
                continue
            x, y = kvec('a', n, r), kvec('b', n, s)
            exp = ref(m.alg, x, y)
            w = len(x) * len(y) / 60.0 * (2.5 if m.kind == 'c' else 1) + 0.4
            out.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (kvec_src(n, 'a', r), kvec_src(n, 'b', s), dump(n, src.format('x', 'y'))),
                             ret(exp), ns=ns, weight=w, what='%s: %s of a general %d-vector and a general %d-vector' % (ns, src.format('x', 'y'), r, s)))
    return out


def full_probe(ids, op, ns, use_op=False):
    m = MODELS[ns]
    n = m.n
    fn, oper, ref = BIN_OPS[op]
    src = oper if (use_op and oper) else fn
    exp = ref(m.alg, full('a', n), full('b', n))
    w = {1: 0.3, 2: 0.6, 3: 1.3, 4: 7}[n] * (1.5 if m.kind == 'c' else 1)
    return Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (full_src(n, 'a'), full_src(n, 'b'), dump(n, src.format('x', 'y'))),
                 ret(exp), ns=ns, weight=w, what='%s: %s of two general multivectors' % (ns, src.format('x', 'y')))


def c01(tier):
    ids = Ids('c01')
    ps = []
    for ns in FULL:
        ps.append(full_probe(ids, 'gp', ns, use_op=True))
        if MODELS[ns].n <= 3:
            ps.append(full_probe(ids, 'gp', ns))
    for ns in PAIRS:
        ps += pair_probes(ids, 'gp', ns, tier, use_op=(MODELS[ns].kind in 'ehm'))
    ps += signed_probes(ids, 'gp') + general_probes(ids, 'gp', tier)
    return ps


SIGNED = [(2, 1, 0), (1, 2, 0), (0, 3, 0), (1, 1, 1), (0, 1, 2), (2, 0, 1), (0, 0, 3)]


def signed_probes(ids, op, sigs=SIGNED):
    """Explicitly signed metric spaces, given as the metric argument."""
    fn, oper, ref = BIN_OPS[op]
    out = []
    for p, q, r in sigs:
        n = p + q + r
        alg = Algebra(diag(*([1] * p + [-1] * q + [0] * r)))
        exp = ref(alg, full('a', n), full('b', n))
        call = fn.format('x', 'y')
        if op != 'op':
            call = call[:-1] + ', mtr)'
        out.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/euclidean.hpp'), 'signed_metric_space<%d, %d, %d> mtr; auto x = %s; auto y = %s; %s' % (p, q, r, full_src(n, 'a'), full_src(n, 'b'), dump(n, call)),
                         ret(exp), ns='ga', weight=1.3, what='signature (%d,%d,%d): %s of two general multivectors' % (p, q, r, fn.format('x', 'y'))))
    return out


GENERAL = [
    [[2, 1], [1, 3]],
    [[0, 1], [1, 0]],
    [[2, 1, 0], [1, 3, 1], [0, 1, -1]],
    [[1, 2, 3], [2, -1, 0], [3, 0, 2]],
    [[0, 0, -1], [0, 1, 0], [-1, 0, 0]],
]


def general_metric_src(M):
    return 'constant_general_metric_space_t<%s> mtr;' % ', '.join(str(x) for r in M for x in r)


def general_probes(ids, op, tier, metrics=GENERAL):
    fn, oper, ref = BIN_OPS[op]
    out = []
    for M in metrics:
        n = len(M)
        alg = Algebra(M)
        exp = ref(alg, full('a', n), full('b', n))
        call = fn.format('x', 'y')[:-1] + ', mtr)'
        out.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp'), '%s auto x = %s; auto y = %s; %s' % (general_metric_src(M), full_src(n, 'a'), full_src(n, 'b'), dump(n, call)),
                         ret(exp), ns='ga', weight=2.0, what='metric matrix %s: %s of two general multivectors' % (M, fn.format('x', 'y'))))
    return out


def c02(tier):
    """Outer and regressive products: metric-free."""
    ids = Ids('c02')
    ps = []
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga2p', 'ga2m', 'ga2c'):
        ps.append(full_probe(ids, 'op', ns, use_op=True))
        ps.append(full_probe(ids, 'rp', ns))
    ps.append(full_probe(ids, 'op', 'ga3e'))
    for ns in ('ga5e', 'ga3c', 'ga3m', 'ga4p'):
        n = MODELS[ns].n
        ps += pair_probes(ids, 'op', ns, tier, use_op=True, only=lambda r, s: r + s <= n + 1)
        ps += pair_probes(ids, 'rp', ns, tier, only=lambda r, s: r + s >= n - 1)
    # the metric-free forms that take the space explicitly
    for M in GENERAL[:3]:
        n = len(M)
        alg = Algebra(M)
        for op in ('rp',):
            ps.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp'), '%s auto x = %s; auto y = %s; %s' % (general_metric_src(M), full_src(n, 'a'), full_src(n, 'b'), dump(n, 'rp(x, y, mtr)')),
                            ret(alg.rp(full('a', n), full('b', n))), ns='ga', weight=1.5, what='metric matrix %s: rp of two general multivectors' % M))
    # associativity of the outer product, vectors of the 5-dimensional algebras
    for ns in ('ga5e', 'ga3c'):
        m = MODELS[ns]
        n = m.n
        x, y = kvec('a', n, 1), kvec('b', n, 1)
        z = {b: V.var('a%d' % (b + 32)) for b in bits_of_grade(n, 2)}
        exp = m.alg.op(m.alg.op(x, y), z)
        for e in ('(x ^ y) ^ z', 'x ^ (y ^ z)'):
            ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; auto z = %s; %s' % (kvec_src(n, 'a', 1), kvec_src(n, 'b', 1), kvec_src(n, 'a + 32', 2), dump(n, e)),
                            ret(exp), ns=ns, weight=5, what='%s: %s of general vectors x, y and a general 2-vector z' % (ns, e)))
    return ps


def c03(tier):
    """Metric contractions and inner products."""
    ids = Ids('c03')
    ps = []
    for op in ('lcont', 'rcont', 'dot', 'hip', 'sp'):
        for ns in ('ga1e', 'ga2e', 'ga3e', 'ga2h', 'ga2p', 'ga1m', 'ga1c', 'ga4e', 'ga2m', 'ga2c', 'ga3h', 'ga3p'):
            ps.append(full_probe(ids, op, ns, use_op=True))
        for ns in ('ga2e', 'ga1c', 'ga1h', 'ga1p'):
            ps.append(full_probe(ids, op, ns))
        ps += signed_probes(ids, op, [(1, 1, 1), (0, 2, 1), (2, 1, 0)])
        ps += general_probes(ids, op, tier, GENERAL[:1] + GENERAL[2:4])
        for ns in ('ga3c', 'ga3m', 'ga5e', 'ga4h', 'ga4p'):
            n = MODELS[ns].n
            # every pair of grades for one representative each side is covered by the pairs below; the contraction order decides which
            if op == 'lcont':
                only = lambda r, s: r <= s and (ns == 'ga3c' or (r + s) % 2 == 1 or r == s)
            elif op == 'rcont':
                only = lambda r, s: r >= s and (ns == 'ga3c' or (r + s) % 2 == 1 or r == s)
            elif op == 'sp':
                only = lambda r, s: r == s
            else:
                only = lambda r, s: (r, s) in ((0, 2), (2, 0), (1, 2), (3, 1), (2, 3), (3, 4), (2, 2), (5, 1), (0, 0))
            ps += pair_probes(ids, op, ns, tier, use_op=True, only=only)
    return ps


def c04(tier):
    """Commutator product, inverse geometric product and division, delta product."""
    ids = Ids('c04')
    ps = []
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga2h', 'ga2p', 'ga1m', 'ga1c', 'ga3h', 'ga2m', 'ga2c'):
        ps.append(full_probe(ids, 'cp', ns))
    ps += signed_probes(ids, 'cp', [(1, 1, 1), (0, 2, 1)])
    ps += general_probes(ids, 'cp', tier, GENERAL[1:3])
    for ns in ('ga3c', 'ga3m', 'ga5e'):
        ps += pair_probes(ids, 'cp', ns, tier, only=lambda r, s: (r, s) in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (0, 2)))
    # X / v, igp(X, v): X times the inverse of a versor
    for ns in ('ga2e', 'ga3e', 'ga2h', 'ga1m', 'ga2m', 'ga1c', 'ga2c', 'ga3c', 'ga3m', 'ga4e', 'ga2p'):
        m = MODELS[ns]
        n = m.n
        g = m.alg
        for e in ('x / y', 'igp(x, y)'):
            for r in (1, 2):
                X, v = kvec('a', n, r), kvec('b', n, 1)
                ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (kvec_src(n, 'a', r), kvec_src(n, 'b', 1), dump(n, e)), ret(g.igp(X, v)), ns=ns, weight=1.5,
                                what='%s: %s, x a general %d-vector, y a general vector' % (ns, e, r)))
        # by a rotor-like even element of a plane
        X, R = kvec('a', n, 1), {0: V.var('b0'), 3: V.var('b3')}
        ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = b[0] + b[3] * (e1 ^ %s); %s' % (kvec_src(n, 'a', 1), m.names[1], dump(n, 'x / y')), ret(g.igp(X, R)), ns=ns, weight=1.5,
                        what='%s: general vector divided by an even element of a plane' % ns))
        # division by a scalar in every form
        for s, val in (('b[0]', V.var('b0')), ('scalar(b[0])', V.var('b0')), ('c<4>', V.const(4))):
            ps.append(Probe(ids(), m.header, 'auto x = %s; %s' % (kvec_src(n, 'a', 1), dump(n, 'x / %s' % s)), ret(scale(X, val.inv())), ns=ns, weight=0.5,
                            what='%s: general vector / %s' % (ns, s)))
    # delta product: the highest-grade part of x y that is not (within tolerance) zero
        # a native left operand
        for e in ('b[40] / y', 'igp(b[40], y)', 'c<2> / y', 'scalar(b[40]) / y'):
            s0 = V.const(2) if 'c<2>' in e else V.var('b40')
            ps.append(Probe(ids(), m.header, 'auto y = %s; %s' % (kvec_src(n, 'b', 1), dump(n, e)), ret(g.igp({0: s0}, kvec('b', n, 1))), ns=ns, weight=0.5, what='%s: %s, y a general vector' % (ns, e)))
    # delta product: the highest-grade part of x y that is not (within tolerance) zero
    for ns in ('ga2e', 'ga3e', 'ga2h', 'ga1m', 'ga1c', 'ga2p'):
        m = MODELS[ns]
        n = m.n
        for r, s in ((1, 1), (1, 2), (2, 1), (2, 2)):
            if n == 4 and (r, s) != (1, 1):
                continue
            x, y = kvec('a', n, r), kvec('b', n, s)
            P = m.alg.gp(x, y)
            for tolsrc, tol in (('b[30]', V.var('b30')), ('scalar(b[30])', V.var('b30'))):
                if n == 4 and tolsrc != 'b[30]':
                    continue
                ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (kvec_src(n, 'a', r), kvec_src(n, 'b', s), dump(n, 'dp(x, y, %s)' % tolsrc)), largest_grade_spec(P, tol), ns=ns, weight=2.5,
                                what='%s: dp(x, y, %s) of a general %d-vector and a general %d-vector' % (ns, tolsrc, r, s)))
            if (r, s) == (1, 2):
                ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (kvec_src(n, 'a', r), kvec_src(n, 'b', s), dump(n, 'dp(x, y)')), largest_grade_spec(P, V.const(1.0e-8)), ns=ns, weight=2.5,
                                what='%s: dp(x, y) of a general %d-vector and a general %d-vector, default tolerance' % (ns, r, s)))
    return ps


def largest_grade_spec(P, tol):
    from ..ring import vabs

    def spec(dec):
        for k in sorted({grade(b) for b in P}, reverse=True):
            part = take(P, k)
            for b in sorted(part):
                if not dec(vabs(part[b]) - tol, '<='):
                    return ('ret', part)
        return ('ret', {})
    return spec


def c05(tier):
    """Vector-space structure: sums, differences, negation, scaling."""
    ids = Ids('c05')
    ps = []
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga5e', 'ga3h', 'ga3p', 'ga2m', 'ga3m', 'ga2c', 'ga3c'):
        m = MODELS[ns]
        n = m.n
        X, Y = full('a', n), full('b', n)
        for e, exp in (('x + y', add(X, Y)), ('x - y', sub(X, Y)), ('-x', neg(X)), ('+x', X), ('x - x', {}), ('x + x', scale(X, 2)), ('(x + y) - x', Y), ('x - (y + x)', neg(Y))):
            ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (full_src(n, 'a'), full_src(n, 'b'), dump(n, e)), ret(exp), ns=ns, weight=0.3 if n < 4 else 0.8,
                            what='%s: %s of general multivectors' % (ns, e)))
        s = V.var('b40')
        for e, exp in (('b[40] * x', scale(X, s)), ('x * b[40]', scale(X, s)), ('x / b[40]', scale(X, s.inv())), ('x + b[40]', add(X, {0: s})), ('b[40] + x', add(X, {0: s})),
                       ('x - b[40]', sub(X, {0: s})), ('b[40] - x', sub({0: s}, X)), ('c<3> * x', scale(X, 3)), ('x * c<-2>', scale(X, -2)), ('x + c<5>', add(X, scalar(5))),
                       ('c<5> - x', sub(scalar(5), X)), ('x - c<5>', sub(X, scalar(5))), ('c<0> * x', {}), ('x + c<0>', X), ('scalar(b[40]) * x', scale(X, s)), ('scalar(b[40]) - x', sub({0: s}, X)), ('x / c<2>', scale(X, V.const(2).inv()))):
            if n >= 4 and e not in ('b[40] * x', 'x + b[40]', 'b[40] - x', 'x / c<2>', 'x - c<5>'):
                continue
            ps.append(Probe(ids(), m.header, 'auto x = %s; %s' % (full_src(n, 'a'), dump(n, e)), ret(exp), ns=ns, weight=0.3 if n < 4 else 0.8, what='%s: %s, x a general multivector' % (ns, e)))
        # mixed grades, sparse operands, constants on either side
        last = 1 << (n - 1)
        nm = m.names
        sp1 = 'a[0] + a[1] * e1 + a[2] * %s' % nm[n - 1]
        SX = {}
        for b, v in ((0, V.var('a0')), (1, V.var('a1')), (last, V.var('a2'))):
            SX = add(SX, {b: v})
        ps.append(Probe(ids(), m.header, dump(n, '(%s) + e1 + (%s)' % (sp1, nm[n - 1])), ret(add(SX, add({1: ONE}, {last: ONE}))), ns=ns, weight=0.4, what='%s: stored coefficients plus constant basis vectors' % ns))
        ps.append(Probe(ids(), m.header, dump(n, 'e1 - (%s) - e1' % sp1), ret(neg(SX)), ns=ns, weight=0.4, what='%s: e1 - x - e1 cancels the constant' % ns))
        ps.append(Probe(ids(), m.header, dump(n, '(%s) - (%s)' % (sp1, nm[n - 1])), ret(sub(SX, {last: ONE})), ns=ns, weight=0.4, what='%s: stored coefficients minus a constant basis vector' % ns))
        if n >= 2:
            ps.append(Probe(ids(), m.header, dump(n, 'c<2> * e1 - c<3> * %s + c<4> * e1 - e1' % nm[1]), ret({1: V.const(5), 2: V.const(-3)}), ns=ns, weight=0.3, what='%s: constants collected at compile time' % ns))
            ps.append(Probe(ids(), m.header, dump(n, 'a[0] * (e1 ^ %s) - a[1] * (%s ^ e1) + b[0] * e1 - b[1] * e1' % (nm[1], nm[1])),
                            ret(clean({3: V.var('a0') + V.var('a1'), 1: V.var('b0') - V.var('b1')})), ns=ns, weight=0.4, what='%s: like terms collected across reordered blades' % ns))
    return ps


def c06(tier):
    """Sign-change operations."""
    ids = Ids('c06')
    ps = []
    for ns in sorted(MODELS):
        m = MODELS[ns]
        n = m.n
        X = full('a', n)
        for e, exp in (('reverse(x)', reverse(X)), ('~x', reverse(X)), ('involute(x)', involute(X)), ('conjugate(x)', conjugate(X)), ('reverse(involute(x)) - conjugate(x)', {}), ('~~x', X), ('involute(involute(x))', X),
                       ('conjugate(conjugate(x))', X)):
            if n >= 4 and e.count('(') > 1 and ns not in ('ga4e', 'ga3c'):
                continue
            ps.append(Probe(ids(), m.header, 'auto x = %s; %s' % (full_src(n, 'a'), dump(n, e)), ret(exp), ns=ns, weight=0.3 if n < 4 else 0.8, what='%s: %s of a general multivector' % (ns, e)))
    m = MODELS['ga3e']
    for e, exp in (('reverse(a[0])', scalar(V.var('a0'))), ('involute(a[0])', scalar(V.var('a0'))), ('conjugate(a[0])', scalar(V.var('a0'))), ('reverse(c<3>)', scalar(3)), ('conjugate(e1)', neg(vec(1))),
                   ('reverse(e1 ^ e2 ^ e3)', {7: V.const(-1)}), ('involute(I)', {7: V.const(-1)}), ('conjugate(I)', {7: ONE}), ('~(a[0] * I)', {7: -V.var('a0')}), ('reverse(e1 ^ e2)', {3: V.const(-1)})):
        ps.append(Probe(ids(), m.header, dump(3, e), ret(exp), ns='ga3e', weight=0.3, what='ga3e: %s' % e))
    # blades of every grade the library represents
    for k in range(64):
        ix = ', '.join(str(i) for i in range(1, k + 1))
        src = 'ga::scaled_constant_basis_blade_t<double%s> x(ga::make_sequential_storage(a[0])); ' % (', ' + ix if k else '')
        for f, e in (('reverse', k * (k - 1) // 2), ('involute', k), ('conjugate', k * (k + 1) // 2)):
            ps.append(Probe(ids(), m.header, src + 'out[0] = out[1] = 0; ga::for_each_component(%s(x), [&](ga::bitset_t b_, auto const &v_, ga::entry_source_t, ga::entry_source_t, bool &) { out[0] += v_; out[1] += b_ == ga::bitset_t(%dull) ? 1 : 2; });' % (f, (1 << k) - 1),
                            ret({0: V.var('a0').scale((-1) ** e), 1: ONE}), ns='ga3e', weight=0.15, what='ga3e: %s of a blade of grade %d' % (f, k)))
    # reversion is an anti-automorphism, involution an automorphism, in a non-orthogonal metric too
    for ns in ('ga2e', 'ga3e', 'ga1c', 'ga1m'):
        m = MODELS[ns]
        n = m.n
        X, Y = full('a', n), full('b', n)
        for e, exp in (('reverse(x * y)', m.alg.gp(reverse(Y), reverse(X))), ('involute(x * y)', m.alg.gp(involute(X), involute(Y))), ('conjugate(x * y)', m.alg.gp(conjugate(Y), conjugate(X))),
                       ('reverse(x ^ y)', m.alg.op(reverse(Y), reverse(X)))):
            ps.append(Probe(ids(), m.header, 'auto x = %s; auto y = %s; %s' % (full_src(n, 'a'), full_src(n, 'b'), dump(n, e)), ret(exp), ns=ns, weight=1.5, what='%s: %s' % (ns, e)))
    return ps
