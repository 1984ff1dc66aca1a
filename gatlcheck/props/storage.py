"""C07, C08, C10, C33: storage forms, runtime-indexed blades, lazy evaluation and coefficient types."""
from ..common import *
from ..ring import vabs
from .algebra import P, sc, sqrt, when_nonneg, when_nonzero, Fr
from .products import BIN_OPS, GENERAL, general_metric_src
from .models import blade_src


def forms(m, v):
    """Operands in every storage form: (source, multivector, is a native number, is a scalar); coefficients from v[]."""
    n = m.n
    x = lambda i: V.var('%s%d' % (v, i))
    s = lambda i: '%s[%d]' % (v, i)
    e1 = m.names[0]
    out = [
        (s(0), {0: x(0)}, True, True),
        ('3', scalar(3), True, True),
        ('-0.5', scalar(Fr(-1, 2)), True, True),
        ('2.5f', scalar(Fr(5, 2)), True, True),
        ('scalar(%s)' % s(0), {0: x(0)}, False, True),
        ('c<4>', scalar(4), False, True),
        ('c<0>', {}, False, True),
        ('(c<1> / c<2>)', scalar(Fr(1, 2)), False, True),
        ('scalar(-3)', scalar(-3), False, True),
        (e1, {1: ONE}, False, False),
        ('(%s * %s)' % (s(1), e1), {1: x(1)}, False, False),
        ('(%s * scalar(%s))' % (e1, s(1)), {1: x(1)}, False, False),
        ('(c<-2> * %s)' % e1, {1: V.const(-2)}, False, False),
        ('(3 * %s)' % e1, {1: V.const(3)}, False, False),
        ('(%s / c<4>)' % e1, {1: V.const(Fr(1, 4))}, False, False),
        ('(%s / 4)' % e1, {1: V.const(Fr(1, 4))}, False, False),
        ('(sqrt(c<2>) * %s)' % e1, {1: V.const(2 ** .5)}, False, False),
        ('fill(scaled_constant_basis_vector_t<double, 1>(), %s)' % v, {1: x(1)}, False, False),
        ('fill(full_vector_t<double, %d>(), %s)' % (n, v), {1 << i: x(1 << i) for i in range(n)}, False, False),
        ('(c<1> + %s * %s)' % (s(1), e1), {0: ONE, 1: x(1)}, False, False),
        ('(%s + c<2> * %s)' % (s(0), e1), {0: x(0), 1: V.const(2)}, False, False),
        ('pseudoscalar()', {(1 << n) - 1: ONE}, False, False),
        ('(%s * pseudoscalar())' % s(7), {(1 << n) - 1: x(7)}, False, False),
    ]
    if n >= 2:
        e2 = m.names[1]
        out += [
            ('(%s * %s + c<3> * %s)' % (s(1), e1, e2), {1: x(1), 2: V.const(3)}, False, False),
            ('(%s * %s + 3 * %s)' % (s(1), e1, e2), {1: x(1), 2: V.const(3)}, False, False),
            ('(%s - %s)' % (e1, e2), {1: ONE, 2: -ONE}, False, False),
            ('(c<1> - c<2> * (%s ^ %s))' % (e1, e2), {0: ONE, 3: V.const(-2)}, False, False),
            ('(%s + %s * (%s ^ %s))' % (s(0), s(3), e1, e2), {0: x(0), 3: x(3)}, False, False),
            ('(%s * %s + (%s ^ %s))' % (s(2), e2, e1, e2), {2: x(2), 3: ONE}, False, False),
            ('(c<5> + %s * %s + %s * (%s ^ %s))' % (s(2), e2, s(3), e1, e2), {0: V.const(5), 2: x(2), 3: x(3)}, False, False),
        ]
    if m.kind in 'cm':
        out.append(('no', None, False, False))
        out.append(('(%s * ni + no)' % s(4), None, False, False))
        from .models import null_vectors
        no, ni = null_vectors(m)
        out[-2] = ('no', no, False, False)
        out[-1] = ('(%s * ni + no)' % s(4), add(scale(ni, x(4)), no), False, False)
    return out


OPS = [
    ('{0} + {1}', add), ('{0} - {1}', sub),
    ('{0} * {1}', lambda g: g.gp), ('{0} ^ {1}', lambda g: g.op), ('{0} < {1}', lambda g: g.lcont), ('{0} > {1}', lambda g: g.rcont), ('{0} | {1}', lambda g: g.dot),
    ('gp({0}, {1})', lambda g: g.gp), ('op({0}, {1})', lambda g: g.op), ('lcont({0}, {1})', lambda g: g.lcont), ('rcont({0}, {1})', lambda g: g.rcont), ('dot({0}, {1})', lambda g: g.dot),
    ('hip({0}, {1})', lambda g: g.hip), ('sp({0}, {1})', lambda g: g.sp), ('rp({0}, {1})', lambda g: g.rp), ('cp({0}, {1})', lambda g: g.cp),
    ('gp({0}, {1}, space)', lambda g: g.gp), ('op({0}, {1}, space)', lambda g: g.op), ('lcont({0}, {1}, space)', lambda g: g.lcont), ('rcont({0}, {1}, space)', lambda g: g.rcont), ('dot({0}, {1}, space)', lambda g: g.dot),
    ('hip({0}, {1}, space)', lambda g: g.hip), ('sp({0}, {1}, space)', lambda g: g.sp), ('rp({0}, {1}, space)', lambda g: g.rp), ('cp({0}, {1}, space)', lambda g: g.cp),
]


def c07(tier):
    ids = Ids('c07')
    ps = []
    k = 0
    for ns, step in (('ga3e', 1), ('ga2m', 4), ('ga2c', 4), ('ga2p', 5), ('ga2h', 5), ('ga1e', 5), ('ga1c', 5), ('ga1m', 5), ('ga3h', 7), ('ga4e', 7), ('ga3p', 7)):
        m = MODELS[ns]
        n, g = m.n, m.alg
        L, R = forms(m, 'a'), forms(m, 'b')
        for oi, (src, ref) in enumerate(OPS):
            f = ref if oi < 2 else ref(g)
            for i, (ls, lv, ln, lsc) in enumerate(L):
                for j, (rs, rv, rn, rsc) in enumerate(R):
                    k += 1
                    if ln and rn:
                        continue
                    st = min(step * (43 if tier == 'quick' else 5), 60)
                    if (i * 7 + j * 13 + oi * 29 + k // 7) % st or '2.5f' in (ls, rs) and 'sqrt' in ls + rs:
                        continue
                    e = src.format(ls, rs)
                    ps.append(P(ids, m, dump(n, e), ret(f(lv, rv)), e, 0.18))
    # unary operations and call forms
    for ns in ('ga3e', 'ga2m', 'ga2c', 'ga2p', 'ga2h'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        un = [('-{0}', neg), ('+{0}', lambda x: x), ('~{0}', reverse), ('reverse({0})', reverse), ('involute({0})', involute), ('conjugate({0})', conjugate),
              ('dual({0})', g.dual), ('undual({0})', g.undual), ('dual({0}, pseudoscalar())', g.dual), ('dual({0}, I, space)', g.dual), ('undual({0}, I, space)', g.undual),
              ('rnorm_sqr({0})', lambda x: clean({0: g.rnorm_sqr(x)})), ('rnorm_sqr({0}, space)', lambda x: clean({0: g.rnorm_sqr(x)}))]
        for s, v, nat, scl in forms(m, 'a'):
            for src, f in un:
                if nat and src[0] in '-+':
                    continue
                if nat and src == '~{0}':
                    continue
                k += 1
                if 'dual' in src and m.kind == 'p' or tier == 'quick' and ns != 'ga3e' and k % 3:
                    continue
                e = src.format(s)
                ps.append(P(ids, m, dump(n, e), ret(f(v)), e, 0.3))
    return ps


def c08(tier):
    ids = Ids('c08')
    ps = []
    q = 0
    metric = [ns for ns in sorted(MODELS) if MODELS[ns].kind != 'c']
    for ns in metric:
        m = MODELS[ns]
        n, g = m.n, m.alg
        x = lambda b: {b: ONE}

        def decl(nm, b, k, form):
            """A runtime-indexed operand named nm with basis blade b."""
            gr = grade(b)
            if form == 'e':
                return 'index_t i_%s = %d; auto %s = e(i_%s); ' % (nm, b.bit_length(), nm, nm), {b: ONE}
            if form == 'se':
                return 'index_t i_%s = %d; auto %s = %s[0] * e(i_%s); ' % (nm, b.bit_length(), nm, k, nm), {b: V.var(k + '0')}
            if form == 'ce':
                return 'index_t i_%s = %d; auto %s = c<-3> * e(i_%s); ' % (nm, b.bit_length(), nm, nm), {b: V.const(-3)}
            if form == 'sb':
                return 'scaled_basis_blade_t<double, %d> %s(make_sequential_storage(%s[0]), make_sequential_storage(bitset_t(%d))); ' % (gr, nm, k, b), {b: V.var(k + '0')}
            if form == 'sbr':
                return 'scaled_basis_blade_t<double, 0, %d> %s(make_sequential_storage(%s[0]), make_sequential_storage(bitset_t(%d))); ' % (n, nm, k, b), {b: V.var(k + '0')}
            if form == 'ub':
                return 'unit_basis_blade_t<%d> %s(make_sequential_storage(bitset_t(%d))); ' % (gr, nm, b), {b: ONE}
            if form == 'cv':
                return 'auto %s = %s[0] * (%s); ' % (nm, k, blade_src(b) if b else 'c<1>'), {b: V.var(k + '0')}
            if form == 'cc':
                return 'auto %s = c<2> * (%s); ' % (nm, blade_src(b) if b else 'c<1>'), {b: V.const(2)}
            if form == 'sc':
                return 'auto %s = scalar(%s[0]); ' % (nm, k), {0: V.var(k + '0')}
        vecs = [1 << i for i in range(n)]
        blades = [b for b in range(1, 1 << n) if grade(b) > 1]
        pairs = []
        for f1 in ('e', 'se', 'ce'):
            for f2 in ('e', 'se', 'ce'):
                pairs += [(f1, a, f2, b) for a in vecs for b in vecs]
            for f2 in ('cv', 'cc'):
                pairs += [(f1, a, f2, b) for a in vecs for b in vecs + blades]
                pairs += [(f2, b, f1, a) for a in vecs for b in vecs + blades]
            pairs += [(f1, a, 'sc', 0) for a in vecs] + [('sc', 0, f1, a) for a in vecs]
        for f1, f2 in (('sb', 'sb'), ('sb', 'e'), ('e', 'sb'), ('ub', 'sb'), ('sb', 'cv'), ('cv', 'sb'), ('sbr', 'sbr'), ('sbr', 'se'), ('cv', 'sbr')):
            A1 = vecs if f1 in ('e', 'se') else vecs + blades + ([0] if f1 == 'sbr' else [])
            A2 = vecs if f2 in ('e', 'se') else vecs + blades + ([0] if f2 == 'sbr' else [])
            pairs += [(f1, a, f2, b) for a in A1 for b in A2]
        ops = [('{0} * {1}', g.gp), ('{0} ^ {1}', g.op), ('{0} < {1}', g.lcont), ('{0} > {1}', g.rcont), ('{0} | {1}', g.dot), ('hip({0}, {1})', g.hip), ('sp({0}, {1})', g.sp), ('rp({0}, {1})', g.rp)]
        want = {1: 24, 2: 60, 3: 140, 4: 160, 5: 160}[n] * (1 if tier == 'quick' else 6)
        for f1, a, f2, b in pairs:
            for oi, (src, f) in enumerate(ops):
                q += 1
                tot = len(pairs) * len(ops)
                if (q * 40503 % 65536) * tot > want * 65536:
                    continue
                d1, v1 = decl('x', a, 'a', f1)
                d2, v2 = decl('y', b, 'b', f2)
                e = src.format('x', 'y')
                ps.append(P(ids, m, d1 + d2 + dump(n, e), ret(f(v1, v2)), '%s with %s of blade %d and %s of blade %d' % (e, f1, a, f2, b), 0.3))
        # Sums of runtime-defined blades: components with blades of the same type that are not known to be the same, possibly the same.
        plus, minus = lambda v, w: add(v, w), lambda v, w: add(v, neg(w))
        sums = [('x + y', lambda u, v, w: plus(u, v)), ('x - y', lambda u, v, w: minus(u, v)), ('x + y + z', lambda u, v, w: plus(plus(u, v), w)), ('x - (y - z)', lambda u, v, w: minus(u, minus(v, w))),
                ('x + x', lambda u, v, w: plus(u, u)), ('(x + y) * z', lambda u, v, w: g.gp(plus(u, v), w)), ('x * (y - z)', lambda u, v, w: g.gp(u, minus(v, w))), ('(x + y) ^ (y + z)', lambda u, v, w: g.op(plus(u, v), plus(v, w))),
                ('(x - y) * (x + z)', lambda u, v, w: g.gp(minus(u, v), plus(u, w))), ('(x < (y + z))', lambda u, v, w: g.lcont(u, plus(v, w))), ('-(x + y)', lambda u, v, w: neg(plus(u, v))), ('~(x + y)', lambda u, v, w: reverse(plus(u, v))),
                ('involute(x - y)', lambda u, v, w: involute(minus(u, v))), ('conjugate(x + y)', lambda u, v, w: conjugate(plus(u, v))), ('b[0] * (x + y)', lambda u, v, w: scale(plus(u, v), B(0))), ('(x + y) + b[1]', lambda u, v, w: plus(plus(u, v), {0: B(1)})),
                ('rnorm_sqr(x + y)', lambda u, v, w: sc(g.rnorm_sqr(plus(u, v)))), ('sp(x + y, y - z)', lambda u, v, w: {0: g.sp(plus(u, v), minus(v, w)).get(0, ZERO)}), ('(x ^ y) + (y ^ z)', lambda u, v, w: plus(g.op(u, v), g.op(v, w))), ('x * y - y * x', lambda u, v, w: minus(g.gp(u, v), g.gp(v, u)))]
        forms3 = [('e', 'e', 'e'), ('se', 'e', 'e'), ('e', 'se', 'ce'), ('se', 'se', 'se'), ('ce', 'e', 'cv'), ('se', 'cv', 'e'), ('cc', 'e', 'se'), ('sb', 'sb', 'e'), ('sb', 'se', 'cv'), ('ub', 'sb', 'e'), ('e', 'ce', 'e'), ('e', 'e', 'sc'), ('sc', 'e', 'e'), ('sbr', 'sbr', 'e'), ('sbr', 'e', 'cv')]
        low = [b for b in blades if n <= 3 or grade(b) == 2]
        dom = lambda f: vecs if f in ('e', 'se', 'ce') else [0] if f == 'sc' else vecs + low + ([0] if f == 'sbr' else [])
        total = sum(len(dom(f)) * len(dom(h)) * len(dom(k)) for f, h, k in forms3) * len(sums)
        want3 = {1: 8, 2: 24, 3: 40, 4: 36, 5: 24}[n] * (1 if tier == 'quick' else 6)
        for f, h, k in forms3:
            for u in dom(f):
                for v in dom(h):
                    for w in dom(k):
                        for src, fn in sums:
                            q += 1
                            if (q * 40503 % 65536) * total > want3 * 65536:
                                continue
                            d1, v1 = decl('x', u, 'a', f)
                            d2, v2 = decl('y', v, 'b', h)
                            d3, v3 = decl('z', w, 'w', k)
                            ps.append(P(ids, m, d1 + d2 + d3 + dump(n, src), ret(fn(v1, v2, v3)), 'sum of runtime: %s with %s of blade %d, %s of blade %d, %s of blade %d' % (src, f, u, h, v, k, w), 0.4, inputs=('a', 'b', 'w'), sig='double const *a, double const *b, double const *w, double *out'))
        for f1 in ('e', 'se', 'ce', 'sb', 'ub', 'sbr'):
            for a in (vecs if f1 in ('e', 'se', 'ce') else vecs + blades):
                for src, f in (('-x', neg), ('~x', reverse), ('involute(x)', involute), ('conjugate(x)', conjugate), ('+x', lambda v: v), ('rnorm_sqr(x)', lambda v: sc(g.rnorm_sqr(v))), ('b[0] * x', lambda v: scale(v, B(0))), ('x * c<3>', lambda v: scale(v, V.const(3))),
                               ('x / b[0]', None), ('dual(x)', g.dual), ('undual(x)', g.undual)):
                    q += 1
                    if m.kind == 'p' and 'dual' in src or (n > 3 or ns not in ('ga2e', 'ga3e', 'ga2m', 'ga2p')) and tier == 'quick' and (q * 40503 % 65536) > 65536 * (0.12 if n > 3 else .25):
                        continue
                    d1, v1 = decl('x', a, 'a', f1)
                    spec = ret(f(v1)) if f else when_nonzero(B(0), lambda v1=v1: scale(v1, B(0).pow(-1)))
                    ps.append(P(ids, m, d1 + dump(n, src), spec, '%s with %s of blade %d' % (src, f1, a), 0.3))
    return ps
