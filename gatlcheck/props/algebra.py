"""C12-C17: norms, versors, duality, exponential, grades."""
from ..common import *
from ..ring import vabs
from .products import largest_grade_spec, GENERAL, general_metric_src

SMALL = ['ga1e', 'ga2e', 'ga3e', 'ga1h', 'ga2h', 'ga1p', 'ga2p', 'ga1m', 'ga1c', 'ga2m', 'ga2c', 'ga4e', 'ga3h', 'ga3p']
BIG = ['ga5e', 'ga4h', 'ga4p', 'ga3m', 'ga3c']


def P(ids, m, body, spec, what, weight=0.6, **kw):
    return Probe(ids(), m.header, body, spec, ns=m.ns, weight=weight, what='%s: %s' % (m.ns, what), **kw)


def sc(v):
    return {0: v} if v.t else {}


def sqrt(v):
    return v.pow(Fr(1, 2))


def when_nonneg(q, mv):
    """Outcome of an operation only defined for q >= 0 (q > 0 when q is a denominator)."""
    def spec(dec):
        return ('ret', mv) if dec(q, '>') else ('any',)
    return spec


def when_nonzero(q, f):
    def spec(dec):
        return ('any',) if dec(q, '==') else ('ret', f())
    return spec


from fractions import Fraction as Fr


def c12(tier):
    ids = Ids('c12')
    ps = []
    for ns in SMALL + BIG:
        m = MODELS[ns]
        n, g = m.n, m.alg
        # full multivectors
        X = full('a', n)
        if n <= 4:
            ps.append(P(ids, m, 'auto x = %s; %s' % (full_src(n, 'a'), dump(n, 'rnorm_sqr(x)')), ret(sc(g.rnorm_sqr(X))), 'rnorm_sqr of a general multivector', 0.5 if n < 4 else 2))
        if n <= 3:
            q = g.rnorm_sqr(X)
            ps.append(P(ids, m, 'auto x = %s; %s' % (full_src(n, 'a'), dump(n, 'rnorm(x)')), when_nonneg(q, sc(sqrt(q))), 'rnorm of a general multivector'))
            ps.append(P(ids, m, 'auto x = %s; %s' % (full_src(n, 'a'), dump(n, 'unit(x)')), when_nonzero(q, lambda g=g, X=X: g.unit(X)), 'unit of a general multivector'))
        for k in range(1, n + 1):
            if n == 5 and k not in (1, 2, 5):
                continue
            X = kvec('a', n, k)
            src = 'auto x = %s; ' % kvec_src(n, 'a', k)
            q = g.rnorm_sqr(X)
            ps.append(P(ids, m, src + dump(n, 'rnorm_sqr(x)'), ret(sc(q)), 'rnorm_sqr of a general %d-vector' % k, 0.5))
            ps.append(P(ids, m, src + dump(n, 'rnorm(x)'), when_nonneg(q, sc(sqrt(q))), 'rnorm of a general %d-vector' % k, 0.5))
            if q.t:
                ps.append(P(ids, m, src + dump(n, 'unit(x)'), when_nonzero(q, lambda g=g, X=X: g.unit(X)), 'unit of a general %d-vector' % k, 0.5))
                if k in (1, n) or n <= 3:
                    ps.append(P(ids, m, src + dump(n, 'inv(x)'), when_nonzero(q, lambda g=g, X=X: g.inv(X)), 'inv of a general %d-vector' % k, 0.5))
                if k == 1:
                    ps.append(P(ids, m, src + dump(n, 'x * inv(x)'), ret(scalar(1)), 'x * inv(x) of a general vector', 0.8))
                    ps.append(P(ids, m, src + dump(n, 'inv(inv(x))'), ret(X), 'inv(inv(x)) of a general vector', 0.8))
                    if n <= 4:
                        ps.append(P(ids, m, src + dump(n, 'rnorm_sqr(unit(x))'), lambda dec, q=q: ('any',) if dec(q, '==') else ('ret', scalar(1 if dec(q, '>') else -1)), 'rnorm_sqr(unit(x)) of a general vector', 0.8))
        # single stored coefficients of either sign, constants and scalars
        for b in sorted({1, (1 << n) - 1, 3 if n > 1 else 1, 1 << (n - 1)}):
            q = g.gp({b: ONE}, reverse({b: ONE})).get(0, ZERO)
            qq = A(0) * A(0) * q
            e = 'auto x = a[0] * (%s); ' % m.blade_src(b)
            ps.append(P(ids, m, e + dump(n, 'rnorm_sqr(x)'), ret(sc(qq)), 'rnorm_sqr(a * (%s))' % m.blade_src(b), 0.3))
            if q.t:
                if q.const_value() > 0:
                    ps.append(P(ids, m, e + dump(n, 'rnorm(x)'), ret(sc(vabs(A(0)) * sqrt(q))), 'rnorm(a * (%s)) for either sign of a' % m.blade_src(b), 0.3))
                ps.append(P(ids, m, e + dump(n, 'unit(x)'), ret(g.unit({b: A(0)})), 'unit(a * (%s)) for either sign of a' % m.blade_src(b), 0.3))
                ps.append(P(ids, m, e + dump(n, 'inv(x)'), ret(g.inv({b: A(0)})), 'inv(a * (%s))' % m.blade_src(b), 0.3))
                # constants: integer norms only, as constant arithmetic is over the integers
                ps.append(P(ids, m, 'auto x = %s; ' % m.blade_src(b) + dump(n, 'inv(x)'), ret(g.inv({b: ONE})), 'inv(%s)' % m.blade_src(b), 0.3))
                ps.append(P(ids, m, 'auto x = %s; ' % m.blade_src(b) + dump(n, 'unit(x)'), ret(g.unit({b: ONE})), 'unit(%s)' % m.blade_src(b), 0.3))
        # even elements of a plane, and mixed
        for p in ((0, 1), (n - 2, n - 1)) if n > 1 else ():
            b = 1 << p[0] | 1 << p[1]
            R = {0: A(0), b: A(1)}
            q = g.rnorm_sqr(R)
            src = 'auto x = a[0] + a[1] * (%s); ' % m.blade_src(b)
            ps.append(P(ids, m, src + dump(n, 'inv(x)'), when_nonzero(q, lambda g=g, R=R: g.inv(R)), 'inv of an even element of a plane', 0.4))
            ps.append(P(ids, m, src + dump(n, 'unit(x)'), when_nonzero(q, lambda g=g, R=R: g.unit(R)), 'unit of an even element of a plane', 0.4))
            if m.kind in 'ehm' and p == (0, 1):
                ps.append(P(ids, m, src + dump(n, 'inv(x) * x'), ret(scalar(1)), 'inv(x) * x of an even element of a plane', 0.4))
    # scalar arguments, with and without a metric
    m = MODELS['ga3e']
    a0 = A(0)
    for e, v in (('rnorm_sqr(a[0])', a0 * a0), ('rnorm(a[0])', vabs(a0)), ('unit(a[0])', a0 / vabs(a0)), ('inv(a[0])', a0.inv()), ('rnorm_sqr(a[0], space)', a0 * a0), ('rnorm(a[0], space)', vabs(a0)),
                 ('unit(a[0], space)', a0 / vabs(a0)), ('inv(a[0], space)', a0.inv()), ('rnorm_sqr(scalar(a[0]))', a0 * a0), ('rnorm(scalar(a[0]))', vabs(a0)), ('unit(scalar(a[0]))', a0 / vabs(a0)),
                 ('inv(scalar(a[0]))', a0.inv()), ('inv(scalar(a[0]), space)', a0.inv()), ('unit(scalar(a[0]), space)', a0 / vabs(a0)), ('rnorm(scalar(a[0]), space)', vabs(a0)),
                 ('rnorm_sqr(c<-3>)', V.const(9)), ('rnorm(c<-3>)', V.const(3)), ('unit(c<-3>)', V.const(-1)), ('inv(c<-1>)', V.const(-1)), ('rnorm_sqr(c<2> * e1 - c<3> * e2)', V.const(13)),
                 ('rnorm(c<-3> * e1)', V.const(3)), ('rnorm(c<3> * e1 - c<4> * e2)', V.const(5))):
        ps.append(P(ids, m, dump(3, e), ret(sc(v)), e, 0.2))
    # an explicit metric argument
    for M in GENERAL[:3]:
        alg = Algebra(M)
        n = len(M)
        X = kvec('a', n, 1)
        q = alg.rnorm_sqr(X)
        for e, f in (('rnorm_sqr(x, mtr)', lambda alg=alg, X=X: sc(alg.rnorm_sqr(X))), ('inv(x, mtr)', lambda alg=alg, X=X: alg.inv(X)), ('unit(x, mtr)', lambda alg=alg, X=X: alg.unit(X))):
            ps.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp'), '%s auto x = %s; %s' % (general_metric_src(M), kvec_src(n, 'a', 1), dump(n, e)), when_nonzero(q, f), ns='ga', weight=0.8,
                            what='metric matrix %s: %s of a general vector' % (M, e)))
    return ps


def c13(tier):
    ids = Ids('c13')
    ps = []
    for ns in ['ga2e', 'ga3e', 'ga4e', 'ga2h', 'ga1m', 'ga2m', 'ga1c', 'ga2c', 'ga1p', 'ga2p', 'ga3c', 'ga3m']:
        m = MODELS[ns]
        n, g = m.n, m.alg
        dims = [k for k in range(n + 1)] if n <= 3 else [1, 2]
        # even: scalar + bivector of a plane; rotor: product of two vectors; odd: vector and vector ^ ...
        b = 3
        R = {0: B(0), b: B(1)}
        Rsrc = 'auto v = b[0] + b[1] * (%s); ' % m.blade_src(b)
        for k in dims:
            X = kvec('a', n, k)
            src = 'auto x = %s; ' % kvec_src(n, 'a', k)
            w = 0.8 if n < 4 else 2
            ps.append(P(ids, m, src + Rsrc + dump(n, 'apply_even_versor(v, x)'), when_nonzero(g.rnorm_sqr(R), lambda g=g, R=R, X=X: g.gp(g.gp(R, X), g.inv(R))), 'even versor of a plane applied to a general %d-vector' % k, w))
            ps.append(P(ids, m, src + Rsrc + dump(n, 'apply_rotor(v, x)'), ret(g.gp(g.gp(R, X), reverse(R))), 'rotor of a plane applied to a general %d-vector' % k, w))
            v = kvec('b', n, 1) if n <= 3 else {1: B(1), 2: B(2), 1 << (n - 1): B(3)}
            vsrc = 'auto v = %s; ' % (kvec_src(n, 'b', 1) if n <= 3 else 'b[1] * e1 + b[2] * %s + b[3] * %s' % (m.names[1], m.names[n - 1]))
            ps.append(P(ids, m, src + vsrc + dump(n, 'apply_odd_versor(v, x)'), when_nonzero(g.rnorm_sqr(v), lambda g=g, v=v, X=X: g.gp(g.gp(v, involute(X)), g.inv(v))), 'vector applied as an odd versor to a general %d-vector' % k, w))
        if n <= 3:
            # general even rotor and full multivector
            RR = {bb: V.var('b%d' % bb) for bb in range(1 << n) if grade(bb) % 2 == 0}
            rsrc = 'auto v = %s; ' % (' + '.join('b[%d]%s' % (bb, ' * (%s)' % m.blade_src(bb) if bb else '') for bb in RR))
            X = full('a', n)
            src = 'auto x = %s; ' % full_src(n, 'a')
            ps.append(P(ids, m, src + rsrc + dump(n, 'apply_rotor(v, x)'), ret(g.gp(g.gp(RR, X), reverse(RR))), 'general even rotor applied to a general multivector', 4))
            if n == 2 or ns == 'ga3e':
                ps.append(P(ids, m, src + rsrc + dump(n, 'apply_even_versor(v, x)'), when_nonzero(g.rnorm_sqr(RR), lambda g=g, RR=RR, X=X: g.gp(g.gp(RR, X), g.inv(RR))), 'general even element applied to a general multivector', 4))
            # trivectors as odd versors
            if n == 3 and m.kind in 'ehmc':
                T = {7: B(0)}
                ps.append(P(ids, m, src + 'auto v = b[0] * I; ' + dump(n, 'apply_odd_versor(v, x)'), ret(g.gp(g.gp(T, involute(X)), g.inv(T))), 'pseudoscalar applied as an odd versor to a general multivector', 2))
    # native and scalar arguments, constants, explicit metric
    m = MODELS['ga3e']
    g = m.alg
    b0 = B(0)
    for e, exp in (('apply_even_versor(b[0] * (e1 ^ e2), a[0])', scalar(A(0))), ('apply_odd_versor(b[0] * e1, a[0])', scalar(A(0))), ('apply_rotor(b[0] * (e1 ^ e2), a[0])', scalar(A(0) * b0 * b0)),
                   ('apply_even_versor(b[0], a[0] * e1)', {1: A(0)}), ('apply_rotor(b[0], a[0] * e1)', {1: A(0) * b0 * b0}), ('apply_even_versor(b[0], a[0])', scalar(A(0))), ('apply_rotor(b[0], a[0])', scalar(A(0) * b0 * b0)),
                   ('apply_odd_versor(e1, e1)', {1: V.const(-1)}), ('apply_odd_versor(e1, e2)', {2: ONE}), ('apply_even_versor(e1 ^ e2, e1)', {1: V.const(-1)}), ('apply_rotor(e1 ^ e2, e3)', {4: ONE}),
                   ('apply_even_versor(b[0] * (e1 ^ e2), a[0] * e1, space)', {1: -A(0)}), ('apply_odd_versor(b[0] * e1, a[0] * e1, space)', {1: -A(0)}), ('apply_rotor(b[0] * (e1 ^ e2), a[0] * e1, space)', {1: -A(0) * b0 * b0})):
        ps.append(P(ids, m, dump(3, e), ret(clean(exp)), e, 0.3))
    # composition: applying v then w equals applying w v
    for ns in ('ga2e', 'ga3e', 'ga1m'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        X = kvec('a', n, 1)
        u, w = {1: B(1), 2: B(2)}, {1: B(3), 2: B(4)}
        q = g.rnorm_sqr(u) * g.rnorm_sqr(w)
        src = 'auto x = %s; auto u = b[1] * e1 + b[2] * %s; auto w = b[3] * e1 + b[4] * %s; ' % (kvec_src(n, 'a', 1), m.names[1], m.names[1])
        exp = lambda g=g, X=X, u=u, w=w: g.gp(g.gp(g.gp(w, u), X), g.inv(g.gp(w, u)))
        ps.append(P(ids, m, src + dump(n, 'apply_odd_versor(w, apply_odd_versor(u, x))'), when_nonzero(q, exp), 'two reflections in succession', 3))
        ps.append(P(ids, m, src + dump(n, 'apply_even_versor(w * u, x)'), when_nonzero(q, exp), 'the product of two vectors applied as an even versor', 3))
    for M in GENERAL[:2]:
        alg = Algebra(M)
        n = len(M)
        X, v = kvec('a', n, 1), kvec('b', n, 1)
        ps.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp'), '%s auto x = %s; auto v = %s; %s' % (general_metric_src(M), kvec_src(n, 'a', 1), kvec_src(n, 'b', 1), dump(n, 'apply_odd_versor(v, x, mtr)')),
                        when_nonzero(alg.rnorm_sqr(v), lambda alg=alg, v=v, X=X: alg.gp(alg.gp(v, involute(X)), alg.inv(v))), ns='ga', weight=1, what='metric matrix %s: apply_odd_versor of a general vector' % M))
    return ps


def c14(tier):
    ids = Ids('c14')
    ps = []
    for ns in sorted(MODELS):
        m = MODELS[ns]
        n, g = m.n, m.alg
        X = full('a', n)
        src = 'auto x = %s; ' % full_src(n, 'a')
        w = {1: 0.3, 2: 0.4, 3: 0.6, 4: 1.2, 5: 3}[n]
        if n == 5 and m.kind == 'c':
            w = 5
        ps.append(P(ids, m, src + dump(n, 'undual(x)'), ret(g.undual(X)), 'undual of a general multivector', w))
        if m.kind == 'p':
            continue
        ps.append(P(ids, m, src + dump(n, 'dual(x)'), ret(g.dual(X)), 'dual of a general multivector', w))
        if n <= 4:
            ps.append(P(ids, m, src + dump(n, 'undual(dual(x))'), ret(X), 'undual(dual(x)) of a general multivector', w))
            ps.append(P(ids, m, src + dump(n, 'dual(undual(x))'), ret(X), 'dual(undual(x)) of a general multivector', w))
            ps.append(P(ids, m, src + dump(n, 'dual(x, I)'), ret(g.dual(X)), 'dual(x, I) of a general multivector', w))
            ps.append(P(ids, m, src + dump(n, 'undual(x, I, space)'), ret(g.undual(X)), 'undual(x, I, space) of a general multivector', w))
        if n <= 3:
            ps.append(P(ids, m, src + dump(n, 'dual(x, I, space)'), ret(g.dual(X)), 'dual(x, I, space) of a general multivector', w))
            ps.append(P(ids, m, src + 'auto J = b[0] * I; ' + dump(n, 'dual(x, J)'), ret(g.dual(X, {(1 << n) - 1: B(0)})), 'dual with respect to a scaled pseudoscalar', w))
            ps.append(P(ids, m, src + 'auto J = b[0] * I; ' + dump(n, 'undual(x, J)'), ret(g.undual(X, {(1 << n) - 1: B(0)})), 'undual with respect to a scaled pseudoscalar', w))
        # a blade of a subspace
        if n >= 2 and m.kind in 'ehm':
            J = {3: B(0)}
            ps.append(P(ids, m, 'auto x = %s; auto J = b[0] * (e1 ^ %s); ' % (kvec_src(n, 'a', 1), m.names[1]) + dump(n, 'dual(x, J)'), ret(g.dual(kvec('a', n, 1), J)), 'dual of a vector with respect to a plane', 0.6))
        ps.append(P(ids, m, dump(n, 'dual(a[0])'), ret(g.dual({0: A(0)})), 'dual of a number', 0.3))
        ps.append(P(ids, m, dump(n, 'undual(a[0])'), ret(g.undual({0: A(0)})), 'undual of a number', 0.3))
        ps.append(P(ids, m, dump(n, 'dual(e1)'), ret(g.dual({1: ONE})), 'dual(e1)', 0.3))
        ps.append(P(ids, m, dump(n, 'dual(I)'), ret(scalar(1)), 'dual(I)', 0.3))
        ps.append(P(ids, m, dump(n, 'undual(c<1>)'), ret(g.I()), 'undual(c<1>)', 0.3))
    for M in GENERAL[:3]:
        alg = Algebra(M)
        n = len(M)
        X = full('a', n)
        for e, exp in (('dual(x, pseudoscalar(mtr), mtr)', alg.dual(X)), ('undual(x, pseudoscalar(mtr), mtr)', alg.undual(X)), ('undual(dual(x, pseudoscalar(mtr), mtr), pseudoscalar(mtr), mtr)', X)):
            # the inverse of a constant with a non-unit norm is not an integer constant: scale the pseudoscalar at run time
            ee = e.replace('pseudoscalar(mtr)', 'J')
            J = {(1 << n) - 1: B(0)}
            exp = {0: alg.dual(X, J), 1: alg.undual(X, J), 2: X}[0 if e.startswith('dual') else 2 if 'dual(dual' in e else 1]
            ps.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp'), '%s auto x = %s; auto J = b[0] * pseudoscalar(mtr); %s' % (general_metric_src(M), full_src(n, 'a'), dump(n, ee)), ret(exp), ns='ga', weight=1.5,
                            what='metric matrix %s: %s' % (M, ee)))
    return ps


def exp_spec(g, X, tol):
    s = g.sp(X, X).get(0, ZERO)

    def spec(dec):
        if dec(vabs(s) - tol, '<='):
            return ('ret', add(scalar(1), X))
        if dec(s, '=='):
            return ('any',)   # only with a negative tolerance
        al = sqrt(vabs(s))
        if dec(s, '<='):
            return ('ret', add(sc(V.fn('cos', al)), scale(X, V.fn('sin', al) / al)))
        return ('ret', add(sc(V.fn('cosh', al)), scale(X, V.fn('sinh', al) / al)))
    return spec


def c15(tier):
    ids = Ids('c15')
    ps = []
    for ns in ('ga2e', 'ga3e', 'ga2h', 'ga1m', 'ga1c', 'ga2p', 'ga1p', 'ga2m', 'ga2c', 'ga3m', 'ga3c', 'ga4e'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        cases = []
        if n <= 3:
            cases.append(('a general bivector', kvec_src(n, 'a', 2), kvec('a', n, 2)))
        for b in sorted({3, 1 << (n - 1) | 1, 3 << (n - 2)}):
            cases.append(('a multiple of %s' % m.blade_src(b), 'a[%d] * (%s)' % (b, m.blade_src(b)), {b: A(b)}))
        if n >= 4:
            # bivectors a ^ b with a common vector factor (simple)
            cases.append(('a simple bivector', 'a[3] * (e1 ^ %s) + a[5] * (e1 ^ %s)' % (m.names[1], m.names[n - 1]), {3: A(3), 1 | 1 << (n - 1): A(5)}))
            if n == 4 and m.kind != 'c':
                cases.append(('a 4-vector', 'a[15] * I', {15: A(15)}))
        for what, src, X in cases:
            for e, tol in (('exp(x)', V.const(1e-8)), ('exp(x, b[0])', B(0)), ('exp(x, b[0], space)', B(0)), ('exp(x, space)', V.const(1e-8)), ('exp(x, scalar(b[0]))', B(0))):
                if n >= 4 and e not in ('exp(x)', 'exp(x, b[0])'):
                    continue
                ps.append(P(ids, m, 'auto x = %s; %s' % (src, dump(n, e)), exp_spec(g, X, tol), '%s of %s' % (e, what), 0.8))
    m = MODELS['ga3e']
    ex = V.fn('exp', A(0))
    for e in ('exp(a[0])', 'exp(scalar(a[0]))', 'exp(a[0], space)', 'exp(scalar(a[0]), space)', 'exp(a[0], b[0], space)', 'exp(scalar(a[0]), b[0], space)', 'exp(a[0], b[0])', 'exp(scalar(a[0]), b[0])'):
        ps.append(P(ids, m, dump(3, e), ret(sc(ex)), e, 0.3))
    return ps


def grade_spec(X, tol):
    def spec(dec):
        g = None
        for b in sorted(X):
            if not dec(vabs(X[b]) - tol, '<='):
                if g is None:
                    g = grade(b)
                elif g != grade(b):
                    return ('ret', {0: V.const(-1)})
        return ('ret', {0: V.const(-2 if g is None else g)} if g != 0 else {})
    return spec


def lgrade_spec(X, tol):
    def spec(dec):
        for k in sorted({grade(b) for b in X}, reverse=True):
            for b in sorted(X):
                if grade(b) == k and not dec(vabs(X[b]) - tol, '<='):
                    return ('ret', {0: V.const(k)} if k else {})
        return ('ret', {0: V.const(-2)})
    return spec


GOUT = 'auto g = %s; out[0] = (double)(ga::grade_t)g;'


def c16(tier):
    ids = Ids('c16')
    ps = []
    tolv = V.const(1e-8)
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga2h', 'ga1c', 'ga1m', 'ga2p', 'ga4e', 'ga3c', 'ga5e'):
        m = MODELS[ns]
        n = m.n
        cases = [('a general vector', kvec_src(n, 'a', 1), kvec('a', n, 1))]
        if n <= 2:
            cases.append(('a general multivector', full_src(n, 'a'), full('a', n)))
        if n >= 2 and n <= 3:
            cases.append(('a general bivector', kvec_src(n, 'a', 2), kvec('a', n, 2)))
        top = (1 << n) - 1
        nm = m.names
        cases.append(('a scalar plus a multiple of the pseudoscalar', 'a[0] + a[1] * (%s)' % m.blade_src(top), {0: A(0), top: A(1)}))
        if n >= 2:
            cases.append(('e1 plus a stored bivector', 'e1 + a[1] * (e1 ^ %s)' % nm[1], {1: ONE, 3: A(1)}))
            cases.append(('a stored vector plus a constant bivector', 'a[1] * e1 + (e1 ^ %s)' % nm[1], {1: A(1), 3: ONE}))
            cases.append(('a stored scalar, vector and bivector', 'a[0] + a[1] * %s + a[2] * (e1 ^ %s)' % (nm[1], nm[1]), {0: A(0), 2: A(1), 3: A(2)}))
            cases.append(('two stored vectors and a scalar', 'a[0] + a[1] * e1 + a[2] * %s' % nm[1], {0: A(0), 1: A(1), 2: A(2)}))
        for what, src, X in cases:
            for e, tol in (('grade(x)', tolv), ('grade(x, b[0])', B(0)), ('grade(x, scalar(b[0]))', B(0))):
                if 'scalar(' in e and n > 3:
                    continue
                # the tolerance is non-negative
                sp = grade_spec(X, tol)
                ps.append(P(ids, m, 'auto x = %s; %s' % (src, GOUT % e), nonneg_tol(tol, sp), '%s of %s' % (e, what), 0.5))
                ps.append(P(ids, m, 'auto x = %s; %s' % (src, GOUT % e.replace('grade', 'largest_grade')), nonneg_tol(tol, lgrade_spec(X, tol)), '%s of %s' % (e.replace('grade', 'largest_grade'), what), 0.5))
    m = MODELS['ga3e']
    for e, X, tol in (('grade(a[0])', {0: A(0)}, tolv), ('grade(a[0], b[0])', {0: A(0)}, B(0)), ('grade(scalar(a[0]))', {0: A(0)}, tolv), ('largest_grade(a[0])', {0: A(0)}, tolv), ('largest_grade(a[0], b[0])', {0: A(0)}, B(0))):
        sp = lgrade_spec(X, tol) if e.startswith('l') else grade_spec(X, tol)
        ps.append(P(ids, m, GOUT % e, nonneg_tol(tol, sp), e, 0.3))
    for e, k in (('grade(e1)', 1), ('grade(e1 ^ e2)', 2), ('grade(I)', 3), ('grade(c<4>)', 0), ('grade(c<0>)', -2), ('grade(e1 + e2)', 1), ('grade(e1 + I)', -1), ('largest_grade(e1 + (e1 ^ e2))', 2), ('largest_grade(c<5> + e1)', 1),
                 ('grade(e1 + e2 - e1)', 1), ('largest_grade((e1 ^ e2) + e1 - (e1 ^ e2))', 1), ('grade(c<3> + e1)', -1)):
        # constant arguments with the default tolerance of an integral coefficient type
        ps.append(P(ids, m, GOUT % e, ret({0: V.const(k)} if k else {}), e, 0.3))
    # the flag of a grade result
    for e, X in (('a[0] + a[1] * e1', {0: A(0), 1: A(1)}), ('a[0] * e1 + a[1] * e2', {1: A(0), 2: A(1)})):
        def flag(dec, X=X):
            r = grade_spec(X, tolv)(dec)[1].get(0, ZERO).const_value()
            return ('ret', {} if r >= 0 else {0: V.const(r)})
        ps.append(P(ids, m, 'auto x = %s; out[0] = (double)grade(x).flag();' % e, flag, 'flag of grade(%s)' % e, 0.4))
    # runtime-indexed components: every index in range
    for idx in (1, 2, 3):
        pass
    # bounds on the possible grades are types: the compiler evaluates them
    for ns, e, lo, hi in (('ga3e', 'a[0] * e1', 1, 1), ('ga3e', 'a[0] + a[1] * (e1 ^ e2)', 0, 2), ('ga3e', 'fill(full_multivector_t<double, 3>(), a)', 0, 3), ('ga3e', 'fill(full_multivector_t<double, 3, 1, 2>(), a)', 1, 2),
                          ('ga3e', 'a[0] * e(1)', 1, 1), ('ga3e', 'e(1) ^ e(2)', 0, 2), ('ga3e', 'c<3>', 0, 0), ('ga3e', 'e1 * (a[0] * e1 + a[1] * e2)', 0, 2)):
        body = 'auto x = %s; using E = typename decltype(x)::expression_type; out[0] = (double)largest_possible_grade_v<E>; out[1] = (double)smallest_possible_grade_v<E>;' % e
        if 'e(1) ^' in e:
            spec = lambda dec: ('any',)
            # a sound bound encloses grade 2; the lower bound may be smaller
            body = 'auto x = %s; using E = typename decltype(x)::expression_type; out[0] = (double)(largest_possible_grade_v<E> >= 2); out[1] = (double)(smallest_possible_grade_v<E> <= 2);' % e
            spec = ret({0: ONE, 1: ONE})
        else:
            spec = ret(clean({0: V.const(hi), 1: V.const(lo)}))
        ps.append(Probe(ids(), 'gatl/%s.hpp' % ns, body, spec, ns=ns, weight=0.3, what='%s: possible grades of %s' % (ns, e)))
    return ps


def nonneg_tol(tol, sp):
    if tol.is_const():
        return sp

    def spec(dec):
        if dec(tol, '<'):
            return ('any',)
        return sp(dec)
    return spec


def c17(tier):
    ids = Ids('c17')
    ps = []
    tolv = V.const(1e-8)
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga5e', 'ga2h', 'ga1c', 'ga3c', 'ga2p', 'ga3m'):
        m = MODELS[ns]
        n = m.n
        X = full('a', n)
        src = 'auto x = %s; ' % full_src(n, 'a')
        w = 0.4 if n <= 3 else 1
        for k in range(-1, n + 2):
            ps.append(P(ids, m, src + dump(n, 'take_grade(x, c<%d>)' % k), ret(take(X, k)), 'take_grade(x, c<%d>) of a general multivector' % k, w))
        if n <= 3:
            # a runtime grade: b[0] converted to an integer; the analysis keeps the conversion symbolic, so constants are passed through a variable
            for k in range(-1, n + 2):
                ps.append(P(ids, m, src + 'grade_t k = %d; ' % k + dump(n, 'take_grade(x, k)'), ret(take(X, k)), 'take_grade(x, k) of a general multivector at k = %d' % k, w))
            ps.append(P(ids, m, src + dump(n, '+'.join('take_grade(x, c<%d>)' % k for k in range(n + 1))), ret(X), 'the grade parts of a general multivector add up to it', w))
            for e, tol in (('take_largest_grade(x)', tolv), ('take_largest_grade(x, b[30])', V.var('b30')), ('take_largest_grade(x, scalar(b[30]))', V.var('b30'))):
                if n == 3:
                    s2, X2 = 'auto x = a[0] + a[1] * e1 + a[2] * %s + a[3] * (e1 ^ %s); ' % (m.names[1], m.names[1]), {0: A(0), 1: A(1), 2: A(2), 3: A(3)}
                else:
                    s2, X2 = src, X
                ps.append(P(ids, m, s2 + dump(n, e), nonneg_tol(tol, largest_grade_spec(X2, tol)), '%s of %s' % (e, 'a scalar, two vectors and a bivector' if n == 3 else 'a general multivector'), 1))
    m = MODELS['ga3e']
    for e, exp in (('take_grade(a[0], c<0>)', {0: A(0)}), ('take_grade(a[0], c<1>)', {}), ('take_grade(a[0], 0)', {0: A(0)}), ('take_grade(a[0], 1)', {}), ('take_grade(e1 + (e1 ^ e2), c<2>)', {3: ONE}), ('take_grade(e1, c<2>)', {}),
                   ('take_grade(a[0] * e1 + I, c<3>)', {7: ONE}), ('take_grade(a[0] * e1 + I, 1)', {1: A(0)}), ('take_grade(a[0] * e1 + I, 3)', {7: ONE}), ('take_grade(a[0] * e1 + I, 2)', {}), ('take_grade(a[0] * e1 + I, scalar(1))', {1: A(0)}),
                   ('take_grade(a[0] * e(2), c<1>)', {2: A(0)}), ('take_grade(a[0] * e(2), c<2>)', {}), ('take_grade(a[0] * e(2), 1)', {2: A(0)}), ('take_grade(a[0] * e(2), 2)', {}), ('take_grade((a[0] * e(2)) ^ (b[0] * e(3)), c<2>)', {6: A(0) * B(0)}),
                   ('take_grade((a[0] * e(2)) * (b[0] * e(2)), c<0>)', {0: A(0) * B(0)}), ('take_grade((a[0] * e(2)) * (b[0] * e(2)), c<2>)', {}), ('take_grade((a[0] * e(2)) * (b[0] * e(3)), c<2>)', {6: A(0) * B(0)}),
                   ('take_grade((a[0] * e(2)) * (b[0] * e(3)), c<0>)', {})):
        ps.append(P(ids, m, dump(3, e), ret(exp), e, 0.4))
    q = 0
    for d, v, gs, t in dyn_blades(3):
        (b, co), = v.items()
        for k in range(-1, 5):
            q += 1
            if tier == 'quick' and q % 3 and not (len(gs) > 1 and k == gs[-1]):
                continue
            ps.append(P(ids, m, d + dump(3, 'take_grade(x, c<%d>)' % k), ret(take(v, k)), 'take_grade(x, c<%d>) of %s' % (k, t), 0.3))
            if q % 2:
                ps.append(P(ids, m, d + 'grade_t k = %d; ' % k + dump(3, 'take_grade(x, k)'), ret(take(v, k)), 'take_grade(x, %d) of %s' % (k, t), 0.3))
            else:
                ps.append(P(ids, m, d + dump(3, 'take_grade(x + b[0] * (e1 ^ e2), c<%d>)' % k), ret(take(add(v, {3: B(0)}), k)), 'take_grade(x + bivector, c<%d>) of %s' % (k, t), 0.3))
        if q % 4 == 1 or tier != 'quick':
            ps.append(P(ids, m, d + dump(3, 'take_largest_grade(x)'), largest_grade_spec(v, tolv), 'take_largest_grade(x) of %s' % t, 0.3))
    X = {0: A(0), 1: A(1), 3: A(2)}
    ps.append(P(ids, m, 'auto x = a[0] + a[1] * e1 + a[2] * (e1 ^ e2); ' + dump(3, 'take_grade(x, largest_grade(x))'), largest_grade_spec(X, tolv), 'take_grade(x, largest_grade(x))', 1))
    ps.append(P(ids, m, 'auto x = a[0] + a[1] * e1 + a[2] * (e1 ^ e2); auto y = b[0] * e1 + b[1] * e2; ' + dump(3, 'take_grade(x, largest_grade(y))'),
                lambda dec: ('ret', {1: A(1)} if not dec(vabs(B(0)) - tolv, '<=') or not dec(vabs(B(1)) - tolv, '<=') else {}), 'take_grade(x, largest_grade(y))', 1))
    ps.append(P(ids, m, 'auto r = take_largest_grade(a[0]); ' + dump(3, 'r'), lambda dec: ('ret', {} if dec(vabs(A(0)) - tolv, '<=') else {0: A(0)}), 'take_largest_grade of a number', 0.4))
    return ps
