"""C25, C26: scalar mathematical functions and the zero, null and unit tests."""
import math
from ..common import *
from ..ring import vabs
from ..absint import apply_fn
from .algebra import P, sc, sqrt, when_nonneg, when_nonzero, nonneg_tol, Fr
from .products import GENERAL, general_metric_src

FNS = ['cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'exp', 'log', 'sqrt', 'cbrt', 'abs']


def fval(f, v):
    """Normal form of the standard function f at v."""
    if f == 'abs':
        return vabs(v)
    if v.is_const():
        c = float(v.const_value())
        if f == 'cbrt':
            return V.const(math.copysign(abs(c) ** (1 / 3), c))
        return V.const(Fr(getattr(math, f)(c)))
    return apply_fn(f, [v])


def dom(f, v, w=None):
    """Where the standard function is a real number."""
    w = fval(f, v) if w is None else w
    if f == 'sqrt' and not v.is_const():
        return when_nonneg(v, sc(w))
    if f == 'log' and not v.is_const():
        return when_nonneg(v, sc(w))
    return ret(sc(w))


def c25(tier):
    ids = Ids('c25')
    ps = []
    for ns in ('ga1e', 'ga3e', 'ga2m', 'ga1h', 'ga2p', 'ga1c'):
        m = MODELS[ns]
        for f in FNS:
            args = [('scalar(a[0])', A(0)), ('(scalar(a[0]) + b[0])', A(0) + B(0)), ('(a[0] * c<3>)', A(0).scale(3)), ('-scalar(a[0])', -A(0)), ('c<3>', V.const(3)), ('c<1>', V.const(1))]
            if f not in ('log',):
                args.append(('c<0>', ZERO))
            if f not in ('log', 'sqrt'):
                args += [('c<-2>', V.const(-2))]
            args.append(('(c<3> / c<4>)', V.const(Fr(3, 4))))
            if f in ('sqrt', 'cbrt'):
                args += [('c<64>', V.const(64)), ('c<4>', V.const(4)), ('c<8>', V.const(8))]
            if ns == 'ga3e':
                args += [('sp(a[0] * e1, b[0] * e1)', A(0) * B(0)), ('((a[0] * e1) | (b[0] * e1 + a[1] * e2))', A(0) * B(0)), ('(scalar(a[0]) * scalar(b[0]))', A(0) * B(0)), ('scalar(0.25)', V.const(Fr(1, 4))), ('c<5, double>', V.const(5)),
                         ('take_grade(a[0] + a[1] * e1, c<0>)', A(0))]
            for s, v in args:
                if f in ('sqrt', 'cbrt') and v.is_const() and v.const_value() == 0:
                    ps.append(P(ids, m, dump(1, '%s(%s)' % (f, s)), ret({}), '%s(%s)' % (f, s), 0.3))
                    continue
                e = '%s(%s)' % (f, s)
                ps.append(P(ids, m, dump(1, e), dom(f, v), e, 0.3))
            # native arguments keep working unqualified
            ps.append(P(ids, m, 'out[0] = %s(a[0]);' % f, dom(f, A(0)), '%s of a native number' % f, 0.1))
        base = [('scalar(a[0])', A(0)), ('(scalar(a[0]) - b[1])', A(0) - B(1))]
        for s, v in base:
            for k in (0, 1, 2, 3, 4, 5, 7, -1, -2, -3):
                for form in ('c<%d>' % k, '%d' % k, '%d.0' % k, 'scalar(%d)' % k):
                    if form != 'c<%d>' % k and (ns != 'ga3e' or s != base[0][0]):
                        continue
                    e = 'pow(%s, %s)' % (s, form)
                    ps.append(P(ids, m, dump(1, e), (lambda v, k: when_nonzero(v, lambda: sc(v.pow(k))))(v, k) if k <= 0 else ret(sc(v.pow(k))), e, 0.3))
            for form in ('0.5', 'scalar(0.5)', '(c<1> / c<2>)', 'c<1> / scalar(2.0)'):
                e = 'pow(%s, %s)' % (s, form)
                ps.append(P(ids, m, dump(1, e), when_nonneg(v, sc(sqrt(v))), e, 0.3))
        gp = V.fn('pow', A(0), B(0))
        pos = lambda mv, q: when_nonneg(q, mv)
        for e, v in (('pow(scalar(a[0]), scalar(b[0]))', gp), ('pow(a[0], scalar(b[0]))', gp), ('pow(scalar(a[0]), b[0])', gp)):
            ps.append(P(ids, m, dump(1, e), pos(sc(v), A(0)), e, 0.3))
        for bs, bv in (('c<2>', 2), ('c<3>', 3), ('2', 2), ('2.5', Fr(5, 2))):
            e = 'pow(%s, scalar(b[0]))' % bs
            ps.append(P(ids, m, dump(1, e), ret(sc(V.fn('pow', V.const(bv), B(0)))), e, 0.3))
        ps.append(P(ids, m, dump(1, 'pow(c<1>, scalar(b[0]))'), ret(scalar(1)), 'pow(c<1>, scalar(b[0]))', 0.3))
        for x in (-3, -2, -1, 1, 2, 5):
            for y in (-3, -2, -1, 0, 1, 2, 3, 4, 6):
                ps.append(P(ids, m, dump(1, 'pow(c<%d>, c<%d>)' % (x, y)), ret(sc(V.const(Fr(x) ** y))), 'pow(c<%d>, c<%d>)' % (x, y), 0.15))
        for y in (1, 2, 3):
            ps.append(P(ids, m, dump(1, 'pow(c<0>, c<%d>)' % y), ret({}), 'pow(c<0>, c<%d>)' % y, 0.15))
        ps.append(P(ids, m, dump(1, 'pow(c<9>, c<1> / c<2>)'), ret(scalar(3)), 'pow(c<9>, c<1> / c<2>)', 0.2))
        ps.append(P(ids, m, dump(1, 'pow(c<4>, 1.5)'), ret(scalar(8)), 'pow(c<4>, 1.5)', 0.2))
    # compositions, evaluated eagerly and lazily
    m = MODELS['ga3e']
    comp = [('abs(abs(%s))', lambda v: vabs(v), None), ('abs(-%s)', lambda v: vabs(v), None), ('abs(%s * %s)', lambda v: v * v, None), ('sqrt(%s * %s)', lambda v: vabs(v), None),
            ('sqrt(pow(%s, c<2>))', lambda v: vabs(v), None), ('pow(sqrt(%s), c<2>)', lambda v: v, '>'), ('sqrt(pow(%s, c<4>))', lambda v: v * v, None), ('sqrt(pow(%s, c<6>))', lambda v: vabs(v).pow(3), None),
            ('abs(pow(%s, c<3>))', lambda v: vabs(v).pow(3), None), ('abs(c<-2> * %s)', lambda v: vabs(v).scale(2), None), ('abs(%s / c<-2>)', lambda v: vabs(v).scale(Fr(1, 2)), None),
            ('pow(abs(%s), c<3>)', lambda v: vabs(v).pow(3), None), ('abs(exp(%s))', lambda v: fval('exp', v), None), ('abs(cosh(%s))', lambda v: fval('cosh', v), None),
            ('abs(cos(%s))', lambda v: vabs(fval('cos', v)), None), ('abs(log(%s))', lambda v: vabs(fval('log', v)), '>'), ('abs(sinh(%s))', lambda v: vabs(fval('sinh', v)), None), ('abs(sin(%s))', lambda v: vabs(fval('sin', v)), None),
            ('abs(tan(%s))', lambda v: vabs(fval('tan', v)), None), ('abs(tanh(%s))', lambda v: vabs(fval('tanh', v)), None), ('abs(cbrt(%s))', lambda v: vabs(apply_fn('cbrt', [v])), None),
            ('abs(sqrt(%s))', lambda v: sqrt(v), '>'), ('abs(pow(%s, c<-1>))', lambda v: vabs(v.pow(-1)), '!='), ('abs(pow(%s, c<-2>))', lambda v: v.pow(-2), '!='), ('sqrt(pow(%s, c<-2>))', lambda v: vabs(v.pow(-1)), '!='),
            ('pow(pow(%s, c<-1>), c<-1>)', lambda v: v, '!='), ('pow(pow(%s, c<2>), c<3>)', lambda v: v.pow(6), None), ('pow(pow(%s, c<2>), c<1> / c<2>)', lambda v: vabs(v), None), ('cos(-%s)', lambda v: fval('cos', v), None),
            ('sin(-%s)', lambda v: -fval('sin', v), None), ('exp(-%s) * exp(%s) - exp(%s - %s)', None, None), ('abs(%s) * abs(%s)', lambda v: v * v, None), ('abs(%s) / %s', lambda v: vabs(v) * v.pow(-1), '!='),
            ('pow(-%s, c<2>)', lambda v: v * v, None), ('pow(-%s, c<3>)', lambda v: -v.pow(3), None), ('pow(c<2> * %s, c<3>)', lambda v: v.pow(3).scale(8), None), ('pow(c<2> * %s, c<-2>)', lambda v: v.pow(-2).scale(Fr(1, 4)), '!='),
            ('sqrt(c<4> * %s)', lambda v: sqrt(v).scale(2), '>'), ('sqrt(-%s * -%s)', lambda v: vabs(v), None), ('sqrt(%s) * sqrt(%s)', lambda v: v, '>'), ('sqrt(%s) / sqrt(%s)', lambda v: ONE, '>'), ('pow(%s, c<3>) / pow(%s, c<2>)', lambda v: v, '!='),
            ('pow(%s, c<2>) * pow(%s, c<-2>)', lambda v: ONE, '!='), ('pow(%s, c<2>) * pow(%s, c<-3>)', lambda v: v.pow(-1), '!='), ('abs(abs(%s) - %s)', lambda v: vabs(vabs(v) - v), None), ('abs(%s - abs(%s))', lambda v: vabs(v - vabs(v)), None)]
    for s, v in (('x', A(0)), ('(x * y)', A(0) * B(0)), ('(x + y)', A(0) + B(0)), ('(c<2> * x)', A(0).scale(2)), ('(c<-3> * x)', A(0).scale(-3)), ('(x / y)', None)):
        for f, g, d in comp:
            if g is None or s == '(x + y)' and ('c<3>))' in f or 'c<6>))' in f):
                continue
            w = A(0) * B(0).pow(-1) if v is None else v
            e = f.replace('%s', s)
            for lazy in (False, True):
                src = 'auto x = scalar(a[0]); auto y = scalar(b[0]); ' + dump(1, e)
                if lazy:
                    src = 'auto p = scalar(a[0]); auto q = scalar(b[0]); auto [lazy, x, y] = make_lazy_context_tuple(p, q); ' + dump(1, 'lazy.eval(%s)' % e)

                def spec(dec, w=w, g=g, d=d, v=v):
                    if v is None and dec(B(0), '=='):
                        return ('any',)
                    if d == '>' and not dec(w, '>'):
                        return ('any',)
                    if d == '!=' and dec(w, '=='):
                        return ('any',)
                    return ('ret', sc(g(w)))
                ps.append(P(ids, m, src, spec, '%s%s' % (e, ', lazily' if lazy else ''), 0.3))
    return ps


def within(dec, v, t):
    """Whether |v| <= t"""
    return not dec(v - t, '>') and not dec(v + t, '<')


def tol_of(dec, vs, t):
    for v in vs:
        if not within(dec, v, t):
            return False
    return True


def c26(tier):
    ids = Ids('c26')
    ps = []
    eps = V.const(1e-8)
    feps = V.const(1e-8)

    def both(m, src, e, f, vals, w=0.4, tols=None):
        """f: is_zero / is_null / is_unit with every form of tolerance and metric."""
        forms = [('', eps), (', b[15]', V.var('b15')), (', 0', ZERO), (', scalar(b[15])', V.var('b15'))]
        if f == 'is_zero':
            forms = [('', eps), (', b[15]', V.var('b15')), (', 0', ZERO), (', 1e-3', V.const(1e-3))]
        else:
            forms = [('', eps), (', b[15]', V.var('b15')), (', space', eps), (', b[15], space', V.var('b15')), (', 0', ZERO)]
        for a, t in forms:
            def spec(dec, t=t, vals=vals):
                if not t.is_const() and dec(t, '<'):
                    return ('any',)
                return ('ret', sc(ONE) if tol_of(dec, vals, t) else {})
            call = '%s(%s%s)' % (f, e, a)
            ps.append(P(ids, m, '%sout[0] = %s ? 1.0 : 0.0;' % (src, call), spec, '%s%s' % (src if len(src) < 60 else '', call), w))
    for ns in sorted(MODELS):
        m = MODELS[ns]
        n, g = m.n, m.alg
        k = 1 if n > 1 else 0
        both(m, 'auto x = %s; ' % kvec_src(n, 'a', k), 'x', 'is_zero', [V.var('a%d' % b) for b in bits_of_grade(n, k)])
        if n == 3 or n == 2:
            both(m, 'auto x = %s; ' % full_src(n, 'a'), 'x', 'is_zero', [A(b) for b in range(1 << n)], 0.8)
        both(m, '', 'a[0] * %s' % m.names[0], 'is_zero', [A(0)])
        both(m, '', 'a[0] * %s + %s' % (m.names[0], m.names[-1]) if n > 1 else 'scalar(a[0])', 'is_zero', [A(0)] + ([ONE] if n > 1 else []))
        both(m, '', 'scalar(a[0]) - scalar(a[1])', 'is_zero', [A(0) - A(1)])
        both(m, 'index_t k = 1; ', 'a[0] * e(k)', 'is_zero', [A(0)])
        for e, v in (('_0', 0), ('_1', 1), (m.names[0], 1), ('c<-2>', -2), ('c<1> / c<2>', Fr(1, 2)), ('c<-1> / c<3>', Fr(-1, 3)), ('%s / c<4>' % m.names[0], Fr(1, 4)), ('(c<1> / c<1000>) * %s' % m.names[0], Fr(1, 1000))):
            both(m, '', e, 'is_zero', [V.const(v)] if v else [], 0.3)
        # null and unit
        gens = [('auto x = %s; ' % kvec_src(n, 'a', kk), 'x', kvec('a', n, kk)) for kk in range(1, n + 1) if n <= 4 or kk in (1, n)]
        if n <= 3:
            gens.append(('auto x = %s; ' % full_src(n, 'a'), 'x', full('a', n)))
        gens += [('', 'a[0] * %s' % m.names[0], {1: A(0)}), ('', 'a[0] * I', {(1 << n) - 1: A(0)}), ('', 'scalar(a[0])', {0: A(0)})]
        for src, e, X in gens:
            q = g.rnorm_sqr(X)
            both(m, src, e, 'is_null', [q] if q.t else [], 0.6)
            both(m, src, e, 'is_unit', [vabs(q) - ONE], 0.6)
        cs = [(nm, {1 << i: ONE}) for i, nm in enumerate(m.names)] + [('I', {(1 << n) - 1: ONE}), ('_0', {}), ('_1', scalar(1)), ('_2', scalar(2)), ('c<2> * %s' % m.names[0], {1: V.const(2)}), ('c<-1> * %s' % m.names[0], {1: -ONE})]
        if n > 1:
            cs += [('(%s + %s)' % (m.names[0], m.names[1]), {1: ONE, 2: ONE}), ('(%s ^ %s)' % (m.names[0], m.names[1]), {3: ONE}), ('(%s + %s) / c<2>' % (m.names[0], m.names[-1]), {1: V.const(Fr(1, 2)), 1 << (n - 1): V.const(Fr(1, 2))})]
        for e, X in cs:
            q = g.rnorm_sqr(X)
            both(m, '', e, 'is_null', [q] if q.t else [], 0.3)
            both(m, '', e, 'is_unit', [vabs(q) - ONE], 0.3)
    # integers (other types: typed_c26)
    m = MODELS['ga3e']
    for v in (0, 1, -1, 3):
        ps.append(P(ids, m, 'int q = %d; out[0] = is_zero(q * e1) ? 1.0 : 0.0;' % v, ret(sc(ONE) if v == 0 else {}), 'is_zero of the integer coefficient %d' % v, 0.2))
    return ps
