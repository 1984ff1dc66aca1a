"""Operands with basis blades defined at run time under the operations of C04, C12, C13, C15, C16, C24 and C26."""
from ..common import *
from ..ring import vabs
from .algebra import P, sc, sqrt, when_nonneg, when_nonzero, Fr, grade_spec, lgrade_spec, nonneg_tol, exp_spec, GOUT
from .products import largest_grade_spec
from .maths import tol_of

NS = ('ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga2h', 'ga3h', 'ga1m', 'ga2m', 'ga2p')
COINCIDING = 'sum of blades that coincide at run time'


def operands(m, nm='x', k='a', thin=1):
    """(declaration, multivector, text, sorted) of operands that hold runtime blades; sorted: no two components have the same blade."""
    n = m.n
    v = lambda i: V.var('%s%d' % (k, i))
    out = []
    for i in range(n):
        b = 1 << i
        ix = 'index_t i_%s = %d; ' % (nm, i + 1)
        out.append((ix + 'auto %s = %s[0] * e(i_%s); ' % (nm, k, nm), {b: v(0)}, 'a multiple of e(%d)' % (i + 1)))
        out.append((ix + 'auto %s = c<-2> * e(i_%s); ' % (nm, nm), {b: V.const(-2)}, '-2 * e(%d)' % (i + 1)))
        out.append((ix + 'auto %s = %s[0] * e(i_%s) + %s[1] * e1; ' % (nm, k, nm, k), add({b: v(0)}, {1: v(1)}), 'a sum of a multiple of e(%d) and one of e1' % (i + 1)))
        out.append((ix + 'auto %s = %s[0] + %s[1] * e(i_%s); ' % (nm, k, k, nm), {0: v(0), b: v(1)}, 'a number plus a multiple of e(%d)' % (i + 1)))
        for j in range(n):
            d = 1 << j
            jx = ix + 'index_t j_%s = %d; ' % (nm, j + 1)
            out.append((jx + 'auto %s = %s[0] * e(i_%s) + %s[1] * e(j_%s); ' % (nm, k, nm, k, nm), add({b: v(0)}, {d: v(1)}), 'a sum of multiples of e(%d) and e(%d)' % (i + 1, j + 1)))
            out.append((jx + 'auto %s = %s[0] * (e(i_%s) * e(j_%s)); ' % (nm, k, nm, nm), scale(m.alg.gp({b: ONE}, {d: ONE}), v(0)), 'a multiple of e(%d) * e(%d)' % (i + 1, j + 1)))
            out.append((jx + 'auto %s = %s[0] * (e(i_%s) ^ e(j_%s)); ' % (nm, k, nm, nm), scale(m.alg.op({b: ONE}, {d: ONE}), v(0)), 'a multiple of e(%d) ^ e(%d)' % (i + 1, j + 1)))
    for decl, X, grades, text in dyn_blades(n, nm, k):
        out.append((decl, X, text))
    return [(d, X, t, not t.startswith('a sum') or len(X) == 2) for d, X, t in out]


def pick(l, want, salt=0):
    """About want elements of l, spread over it."""
    if len(l) <= want:
        return list(l)
    return [x for i, x in enumerate(l) if ((i + salt) * 40503 % 65536) * len(l) < want * 65536]


def family(pid, tier):
    ids = Ids(pid.lower() + 'rt')
    ps = []
    more = 1 if tier == 'quick' else 5
    tolv = V.const(1e-8)
    for ns in NS:
        m = MODELS[ns]
        n, g = m.n, m.alg
        xs = operands(m)
        want = lambda k: max(3, int(k * {1: .3, 2: .6, 3: 1, 4: .7}[n] * more))

        def p(body, spec, what, w=0.4):
            ps.append(P(ids, m, body, spec, what + ' (runtime blades)', w))
        if pid == 'C04':
            ys = operands(m, 'y', 'b')
            const = [('auto y = %s; ' % kvec_src(n, 'b', 1), kvec('b', n, 1), 'a general vector', True), ('auto y = b[0] + b[1] * (%s); ' % m.blade_src((1 << n) - 1), {0: B(0), (1 << n) - 1: B(1)}, 'a number plus a multiple of the pseudoscalar', True)]
            for i, (d, X, t, srt) in enumerate(pick(xs, want(8))):
                for d2, Y, t2, srt2 in [const[i % 2]] + pick(ys, 2, i * 7):
                    half = V.const(Fr(1, 2))
                    p(d + d2 + dump(n, 'cp(x, y)'), ret(scale(add(g.gp(X, Y), neg(g.gp(Y, X))), half)), 'cp(x, y) of %s and %s' % (t, t2))
                    p(d + d2 + dump(n, 'cp(y, x)'), ret(scale(add(g.gp(Y, X), neg(g.gp(X, Y))), half)), 'cp(y, x) of %s and %s' % (t, t2))
                    q = g.rnorm_sqr(X)
                    for e in ('y / x', 'igp(y, x)'):
                        p(d + d2 + dump(n, e), when_nonzero(q, lambda X=X, Y=Y, g=g: g.igp(Y, X)) if q.t else (lambda dec: ('any',)), '%s of %s and %s' % (e, t, t2))
                    one = lambda Z: len([b for b in Z if Z[b].t]) <= 1
                    if one(X) and one(Y):
                        p(d + d2 + dump(n, 'dp(x, y, b[30])'), nonneg_tol(V.var('b30'), largest_grade_spec(g.gp(X, Y), V.var('b30'))) if srt and srt2 else (lambda dec: ('any',)), 'dp(x, y, tol) of %s and %s' % (t, t2))
        elif pid == 'C12':
            for d, X, t, srt in pick(xs, want(25)):
                q = g.rnorm_sqr(X)
                p(d + dump(n, 'rnorm_sqr(x)'), ret(sc(q)), 'rnorm_sqr of %s' % t)
                p(d + dump(n, 'rnorm(x)'), when_nonneg(q, sc(sqrt(q))) if q.t else ret({}), 'rnorm of %s' % t)
                if q.t:
                    p(d + dump(n, 'unit(x)'), when_nonzero(q, lambda g=g, X=X: g.unit(X)), 'unit of %s' % t)
                    p(d + dump(n, 'inv(x)'), when_nonzero(q, lambda g=g, X=X: g.inv(X)), 'inv of %s' % t)
                    p(d + dump(n, 'rnorm_sqr(x, space)'), ret(sc(q)), 'rnorm_sqr(x, space) of %s' % t)
        elif pid == 'C13':
            args = [('auto y = %s; ' % kvec_src(n, 'b', 1), kvec('b', n, 1), 'a general vector', True), ('auto y = %s; ' % full_src(n, 'b') if n <= 3 else 'auto y = %s; ' % kvec_src(n, 'b', 2), full('b', n) if n <= 3 else kvec('b', n, 2), 'a general multivector' if n <= 3 else 'a general bivector', True)]
            ys = operands(m, 'y', 'b')
            for i, (d, X, t, srt) in enumerate(pick(xs, want(6))):
                q = g.rnorm_sqr(X)
                for d2, Y, t2, s2 in [args[i % 2]] + pick(ys, 2, i * 5):
                    p(d + d2 + dump(n, 'apply_rotor(x, y)'), ret(g.gp(g.gp(X, Y), reverse(X))), 'apply_rotor(x, y) of %s and %s' % (t, t2))
                    if q.t:
                        p(d + d2 + dump(n, 'apply_even_versor(x, y)'), when_nonzero(q, lambda g=g, X=X, Y=Y: g.gp(g.gp(X, Y), g.inv(X))), 'apply_even_versor(x, y) of %s and %s' % (t, t2))
                        p(d + d2 + dump(n, 'apply_odd_versor(x, y)'), when_nonzero(q, lambda g=g, X=X, Y=Y: g.gp(g.gp(X, involute(Y)), g.inv(X))), 'apply_odd_versor(x, y) of %s and %s' % (t, t2))
                if n > 1:
                    R = {0: B(0), 3: B(1)}
                    qr = g.rnorm_sqr(R)
                    dr = 'auto y = b[0] + b[1] * (e1 ^ %s); ' % m.names[1]
                    p(d + dr + dump(n, 'apply_even_versor(y, x)'), when_nonzero(qr, lambda g=g, X=X, R=R: g.gp(g.gp(R, X), g.inv(R))), 'apply_even_versor of an even element to %s' % t)
                    p(d + dr + dump(n, 'apply_rotor(y, x)'), ret(g.gp(g.gp(R, X), reverse(R))), 'apply_rotor of an even element to %s' % t)
                Y = kvec('b', n, 1)
                p(d + args[0][0] + dump(n, 'apply_odd_versor(y, x)'), when_nonzero(g.rnorm_sqr(Y), lambda g=g, X=X, Y=Y: g.gp(g.gp(Y, involute(X)), g.inv(Y))), 'apply_odd_versor of a general vector to %s' % t)
        elif pid == 'C15':
            for d, X, t, srt in pick([o for o in xs if len([b for b in o[1] if o[1][b].t]) <= 1 and 'sum' not in o[2] and 'number' not in o[2] and not any(v.is_const() for v in o[1].values())], want(26)):
                bl = [b for b in X if X[b].t]
                for e, tol in (('exp(x)', tolv), ('exp(x, b[0])', B(0)), ('exp(x, space)', tolv)):
                    if bl == [0]:
                        continue      # the exponential of a blade of grade zero is not a blade exponential
                    p(d + dump(n, e), exp_spec(g, X, tol) if tol.is_const() else nonneg_tol(tol, exp_spec(g, X, tol)), '%s of %s' % (e, t))
        elif pid == 'C16':
            for d, X, t, srt in pick([o for o in xs if o[3]], want(28)):
                if any(v.is_const() and not v.t for v in X.values()):
                    continue
                for e, tol in (('grade(x)', tolv), ('grade(x, b[0])', B(0))):
                    if any(v.is_const() for v in X.values()) and tol is tolv:
                        continue      # the default tolerance of an integral coefficient
                    p('%s%s' % (d, GOUT % e), nonneg_tol(tol, grade_spec(X, tol)), '%s of %s' % (e, t))
                    p('%s%s' % (d, GOUT % e.replace('grade', 'largest_grade')), nonneg_tol(tol, lgrade_spec(X, tol)), '%s of %s' % (e.replace('grade', 'largest_grade'), t))
        elif pid == 'C24':
            if m.kind != 'e':
                continue
            proj = lambda X, Y, g=g: g.lcont(g.lcont(X, g.inv(Y)), Y)
            for i, (d, X, t, srt) in enumerate(pick([o for o in xs if 'number' not in o[2]], want(30))):
                Y = kvec('b', n, 1)
                dy = 'auto y = %s; ' % kvec_src(n, 'b', 1)
                qy, qx = g.rnorm_sqr(Y), g.rnorm_sqr(X)
                p(d + dy + dump(n, 'project(x, y)'), when_nonzero(qy, lambda X=X, Y=Y, proj=proj: proj(X, Y)), 'project(x, y) of %s and a general vector' % t)
                p(d + dy + dump(n, 'reject(x, y)'), when_nonzero(qy, lambda X=X, Y=Y, proj=proj: add(X, neg(proj(X, Y)))), 'reject(x, y) of %s and a general vector' % t)
                if qx.t:
                    p(d + dy + dump(n, 'project(y, x)'), when_nonzero(qx, lambda X=X, Y=Y, proj=proj: proj(Y, X)), 'project(y, x) of a general vector and %s' % t)
                    p(d + dy + dump(n, 'reject(y, x)'), when_nonzero(qx, lambda X=X, Y=Y, proj=proj: add(Y, neg(proj(Y, X)))), 'reject(y, x) of a general vector and %s' % t)
        elif pid == 'C26':
            for d, X, t, srt in pick([o for o in xs if o[3]], want(20)):
                q = g.rnorm_sqr(X)
                for f, vals in (('is_zero', [v for v in X.values() if v.t]), ('is_null', [q] if q.t else []), ('is_unit', [vabs(q) - ONE])):
                    for a, tol in (('', tolv), (', b[15]', V.var('b15'))):
                        if not a and any(v.is_const() for v in X.values()):
                            continue
                        def spec(dec, tol=tol, vals=vals):
                            if not tol.is_const() and dec(tol, '<'):
                                return ('any',)
                            return ('ret', sc(ONE) if tol_of(dec, vals, tol) else {})
                        p('%sout[0] = %s(x%s) ? 1.0 : 0.0;' % (d, f, a), spec, '%s(x%s) of %s' % (f, a, t))
    # Sums in which two components turn out to have the same blade: the answer is that for the sum (recorded findings).
    m = MODELS['ga3e']
    d = 'index_t i = 1; auto x = a[0] * e(i) + a[1] * e1; '
    S = {1: A(0) + A(1)}
    if pid == 'C16':
        ps.append(P(ids, m, d + GOUT % 'grade(x)', grade_spec(S, tolv), 'grade(x) of a %s' % COINCIDING, 0.3))
        ps.append(P(ids, m, d + GOUT % 'largest_grade(x)', lgrade_spec(S, tolv), 'largest_grade(x) of a %s' % COINCIDING, 0.3))
    if pid == 'C26':
        ps.append(P(ids, m, d + 'out[0] = is_zero(x) ? 1.0 : 0.0;', lambda dec: ('ret', sc(ONE) if tol_of(dec, [S[1]], tolv) else {}), 'is_zero(x) of a %s' % COINCIDING, 0.3))
    return ps


def runtime(pid):
    return lambda tier: family(pid, tier)
