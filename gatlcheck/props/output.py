"""C31: formatted output."""
from ..common import *
from .algebra import P, Fr
from .storage import forms

SIG = 'double const *a, double const *b, double *out, std::ostream &os, std::array<std::string, %d> const &names'
WORD = ['first', 'second', 'third', 'fourth', 'fifth', 'sixth']


def written(mv, extra=()):
    """Every component once: their number, then the basis blade and the coefficient of each, by basis blade."""
    bs = sorted(set(mv) | set(extra)) or [0]
    r = {0: V.const(len(bs))}
    for i, b in enumerate(bs):
        r[2 * i + 1], r[2 * i + 2] = V.const(b), mv.get(b, ZERO)
    return ret({k: v for k, v in r.items() if v.t})


def W(ids, m, decl, x, mv, what, weight=0.5, extra=(), own=False):
    """One program that writes the expression x."""
    body = decl + ('os << (%s);' % x if own else 'write(os, %s, names);' % x)
    return Probe(ids(), m.header, body, written(mv, extra), m.ns, weight, '%s: %s of %s' % (m.ns, 'operator <<' if own else 'write', what), sig=SIG % m.n, names=m.names)


def constants():
    return [('c<%d>' % k, Fr(k)) for k in (0, 1, -1, 7, -12)] + [('(c<%d> / c<%d>)' % pq, Fr(*pq)) for pq in ((1, 2), (-3, 4), (22, 7))]


def c31(tier):
    ids = Ids('c31')
    ps = []
    q = tier == 'quick'
    for mi, (ns, m) in enumerate(sorted(MODELS.items())):
        n = m.n
        # general multivectors, every grade
        if n <= 3:
            ps.append(W(ids, m, '', full_src(n, 'a'), {b: A(b) for b in range(1 << n)}, 'a full multivector', 2.0))
        for k in range(n + 1):
            if len(bits_of_grade(n, k)) <= 6 or not q and len(bits_of_grade(n, k)) <= 8:
                ps.append(W(ids, m, '', kvec_src(n, 'a', k), kvec('a', n, k), 'a full %d-vector' % k, 1.0))
        # every basis blade under its own name
        for b in range(1 << n):
            x = ' ^ '.join(m.names[i] for i in range(n) if b >> i & 1) or 'scalar(c<1>)'
            ps.append(W(ids, m, '', x, {b: ONE}, 'the basis blade %d' % b, own=True))
            ps.append(W(ids, m, '', 'fill(scaled_constant_basis_blade_t<double%s>(), b)' % ''.join(', %d' % (i + 1) for i in range(n) if b >> i & 1), {b: B(b)}, 'a multiple of the basis blade %d' % b))
        # storage forms
        for i, (src, v, native, _) in enumerate(forms(m, 'a')):
            if native or q and (i + mi) % 3:
                continue
            ps.append(W(ids, m, '', src, v, src))
            if (i + mi) % 2 == 0:
                ps.append(W(ids, m, '', src, v, src, own=True))
    # runtime blades, alone and next to other components
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga2h', 'ga2m', 'ga4e'):
        m = MODELS[ns]
        for i, (decl, v, grades, what) in enumerate(dyn_blades(min(m.n, 3))):
            if q and m.n > 3 and i % 3:
                continue
            ps.append(W(ids, m, decl, 'x', v, what, 0.3))
            if i % 4 == 0:
                ps.append(W(ids, m, decl, 'x', v, what, 0.3, own=True))
        for k in range(m.n):
            ps.append(W(ids, m, 'index_t i = %d; ' % (k + 1), 'e(i)', {1 << k: ONE}, 'e(%d)' % (k + 1), 0.3))
            ps.append(W(ids, m, 'index_t i = %d; ' % (k + 1), 'a[0] * e(i)', {1 << k: A(0)}, 'a[0] * e(%d)' % (k + 1), 0.3, own=True))
            ps.append(W(ids, m, 'index_t i = %d; ' % (k + 1), 'c<-5> * e(i)', {1 << k: V.const(-5)}, 'c<-5> * e(%d)' % (k + 1), 0.3))
    # coefficients known at compile time
    m = MODELS['ga3e']
    e12 = 'e1 ^ e2'
    r2, r3 = V.const(2).pow(Fr(1, 2)), V.const(3).pow(Fr(1, 2))
    h = V.const(Fr(1, 2))
    consts = [('c<%d>' % k, V.const(k)) for k in (0, 1, -1, 7, -12, 100000)] + [('(c<%d> / c<%d>)' % pq, V.const(Fr(*pq))) for pq in ((1, 2), (-3, 4), (22, 7), (-1, 100))]
    consts += [('sqrt(c<2>)', r2), ('(c<1> + sqrt(c<2>))', ONE + r2), ('(c<3> * sqrt(c<2>))', r2.scale(3)), ('((c<1> + sqrt(c<2>)) * sqrt(c<3>))', (ONE + r2) * r3),
               ('((c<1> + sqrt(c<2>)) * (c<5> - sqrt(c<3>)))', (ONE + r2) * (V.const(5) - r3)), ('(-sqrt(c<3>))', -r3), ('((c<1> + sqrt(c<2>)) / (c<1> + sqrt(c<3>)))', (ONE + r2) * (ONE + r3).pow(-1)),
               ('sqrt(c<1> + sqrt(c<2>))', (ONE + r2).pow(Fr(1, 2))), ('(sqrt(c<2>) / c<2>)', r2 * h), ('exp(c<2>)', V.fn('exp', V.const(2))), ('log(c<3>)', V.fn('log', V.const(3))),
               ('(c<2> + exp(c<2>))', V.const(2) + V.fn('exp', V.const(2))), ('((c<2> + exp(c<3>)) * log(c<5>))', (V.const(2) + V.fn('exp', V.const(3))) * V.fn('log', V.const(5))),
               ('cos(c<1>)', V.fn('cos', ONE)), ('(c<1> - sin(c<1>))', ONE - V.fn('sin', ONE)), ('tan(c<2>)', V.fn('tan', V.const(2))), ('cosh(c<2>)', V.fn('cosh', V.const(2))),
               ('sinh(c<2>)', V.fn('sinh', V.const(2))), ('tanh(c<2>)', V.fn('tanh', V.const(2)))]
    for src, v in consts:
        ps.append(W(ids, m, '', src, {0: v}, src))
        ps.append(W(ids, m, '', '%s * (%s)' % (src, e12), {3: v} if v.t else {}, '%s * (%s)' % (src, e12), own=True))
        if v.t:
            ps.append(W(ids, m, '', 'a[0] + %s * e2 + a[5] * (e1 ^ e3)' % src, {0: A(0), 2: v, 5: A(5)}, 'a[0] + %s * e2 + a[5] * (e1 ^ e3)' % src))
    return ps
