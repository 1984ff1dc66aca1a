"""C20-C24: constructors, model constants and points, flats, rounds, tangents, projection and translation."""
from ..common import *
from ..ring import atom_key
from .algebra import P, sc, when_nonzero, Fr
from .products import GENERAL, general_metric_src

GEO = ['ga1c', 'ga2c', 'ga3c', 'ga1m', 'ga2m', 'ga3m']


# ---- polynomials as C++ source
def poly_src(v):
    if not v.t:
        return '0.0'
    ts = []
    for m, c in sorted(v.t.items()):
        c = Fr(c)
        fs = ['%d.0' % c.numerator if c.denominator == 1 else '(%d.0 / %d.0)' % (c.numerator, c.denominator)]
        for a, k in m:
            key = atom_key(a)
            assert key[0] == 'v' and k == int(k) and k > 0
            fs += ['%s[%s]' % (key[1][0], key[1][1:])] * int(k)
        ts.append(' * '.join(fs))
    return ' + '.join(ts)


def literal(mv, n, name='x'):
    """Declares name as the dense k-vector (or grade range) with these polynomial coefficients."""
    gs = sorted({grade(b) for b in mv}) or [0]
    t = 'full_multivector_t<double, %d, %d, %d>' % (n, gs[0], gs[-1])
    bits = [b for b in range(1 << n) if gs[0] <= grade(b) <= gs[-1]]
    s = 'double q_%s[%d] = {}; ' % (name, 1 << n)
    for b in bits:
        if b in mv:
            s += 'q_%s[%d] = %s; ' % (name, b, poly_src(mv[b]))
    return s + 'auto %s = fill(%s(), q_%s); ' % (name, t, name)


def sparse(mv, name='x'):
    """Declares name as the sum of exactly these basis blades, with these polynomial coefficients."""
    return 'auto %s = %s; ' % (name, ' + '.join('(%s) * (%s)' % (poly_src(v), blade_src(b)) for b, v in sorted(mv.items())))


def blade_src(b):
    return ' ^ '.join('e(c<%d>)' % (i + 1) for i in range(b.bit_length()) if b >> i & 1) or 'c<1>'


def null_vectors(m):
    d = m.d
    if m.kind == 'c':
        return {1 << d: ONE}, {1 << (d + 1): ONE}
    return {1 << d: V.const(Fr(-1, 2)), 1 << (d + 1): V.const(Fr(1, 2))}, {1 << d: ONE, 1 << (d + 1): ONE}


def point(m, x):
    """The unit point of a null model at Euclidean position x."""
    g = m.alg
    no, ni = null_vectors(m)
    return add(add(x, no), scale(ni, g.sp(x, x).get(0, ZERO).scale(Fr(1, 2))))


def coords(m, name):
    """name[1..d] as a Euclidean vector"""
    return {1 << i: V.var('%s%d' % (name, i + 1)) for i in range(m.d)}


def coords_src(m, name):
    return ', '.join('%s[%d]' % (name, i + 1) for i in range(m.d))


def eblade(m, k, name='a'):
    """A general Euclidean blade of grade k (in up to three dimensions every k-vector is one)."""
    return {0: A(0)} if k == 0 else {b: V.var('%s%d' % (name, b)) for b in range(1 << m.d) if grade(b) == k}


# ---- C20
def c20(tier):
    ids = Ids('c20')
    ps = []
    for ns in sorted(MODELS):
        m = MODELS[ns]
        n = m.n
        al = ', '.join('a[%d]' % i for i in range(n))
        v = vec(*[A(i) for i in range(n)])
        for e in ('vector(%s)' % al, 'vector(space, %s)' % al, 'vector(a, a + %d)' % n, 'vector(space, a, a + %d)' % n):
            ps.append(P(ids, m, dump(n, e), ret(v), e, 0.3))
        # a scalar stays the scalar it is, whoever holds it
        for decl, val in (('auto x = scalar(a[0]);', A(0)), ('auto const x = scalar(a[0]);', A(0)), ('auto x = c<3>;', V.const(3)), ('auto const x = -c<3>;', V.const(-3)), ('auto x = %s | (a[0] * %s);' % (m.names[0], m.names[0]), A(0) * m.alg.gp({1: ONE}, {1: ONE}).get(0, ZERO)), ('auto p = a[0]; auto y = scalar(p); auto &x = y;', A(0))):
            for how in ('x', 'std::move(x)', 'scalar(x)'):
                ps.append(P(ids, m, '%s using type_ = std::decay_t<decltype(x)>; auto r = scalar(%s); static_assert(std::is_same_v<type_, decltype(r)>); %s' % (decl, how, dump(n, 'r')), ret({0: val} if val.t else {}), '%s scalar(%s)' % (decl, how), 0.2))
        # mixtures of native numbers, wrapped scalars and constants, in every position
        for k in range(n):
            for form, val in (('c<%d>' % (k + 2), V.const(k + 2)), ('c<0>', ZERO), ('scalar(b[0])', B(0)), ('(b[0] * c<3>)', B(0).scale(3)), ('-scalar(b[0])', -B(0))):
                if n == 5 and form in ('c<0>', '-scalar(b[0])'):
                    continue
                xs = ['a[%d]' % i for i in range(n)]
                vs = [A(i) for i in range(n)]
                xs[k], vs[k] = form, val
                ps.append(P(ids, m, dump(n, 'vector(%s)' % ', '.join(xs)), ret(vec(*vs)), 'vector(%s)' % ', '.join(xs), 0.3))
        xs = ['c<%d>' % (3 - 2 * i) for i in range(n)]
        ps.append(P(ids, m, dump(n, 'vector(%s)' % ', '.join(xs)), ret(vec(*[3 - 2 * i for i in range(n)])), 'vector(%s)' % ', '.join(xs), 0.3))
        xs = ['scalar(a[%d])' % i if i % 2 == 0 else ('c<%d>' % -i if i % 4 == 1 else 'a[%d]' % i) for i in range(n)]
        vs = [A(i) if i % 2 == 0 or i % 4 != 1 else V.const(-i) for i in range(n)]
        ps.append(P(ids, m, dump(n, 'vector(%s)' % ', '.join(xs)), ret(vec(*vs)), 'vector(%s)' % ', '.join(xs), 0.3))
        ps.append(P(ids, m, 'int i1 = 7, i2 = -2; float f1 = 0.5f; ' + dump(n, 'vector(%s)' % ', '.join(['i1', 'f1', 'a[0]', 'i2', 'a[1]'][:n])),
                    ret(vec(*[V.const(7), V.const(Fr(1, 2)), A(0), V.const(-2), A(1)][:n])), 'vector of coordinates of different native types', 0.3))
        ps.append(P(ids, m, 'std::array<double, %d> s; for (int i = 0; i < %d; i++) s[i] = a[i]; ' % (n, n) + dump(n, 'vector(s.begin(), s.end())'), ret(v), 'vector(s.begin(), s.end()) of a std::array', 0.3))
        for i in range(n):
            ps.append(P(ids, m, dump(n, 'e(c<%d>)' % (i + 1)), ret({1 << i: ONE}), 'e(c<%d>)' % (i + 1), 0.2))
            ps.append(P(ids, m, 'index_t k = %d; ' % (i + 1) + dump(n, 'e(k)'), ret({1 << i: ONE}), 'e(k) at k = %d' % (i + 1), 0.2))
            ps.append(P(ids, m, 'index_t k = %d; ' % (i + 1) + dump(n, 'a[0] * e(k)'), ret({1 << i: A(0)}), 'a * e(k) at k = %d' % (i + 1), 0.2))
            ps.append(P(ids, m, dump(n, m.names[i]), ret({1 << i: ONE}), 'the named basis vector %s' % m.names[i], 0.2))
        ps.append(P(ids, m, dump(n, 'pseudoscalar()'), ret({(1 << n) - 1: ONE}), 'pseudoscalar()', 0.2))
        ps.append(P(ids, m, dump(n, 'pseudoscalar(space)'), ret({(1 << n) - 1: ONE}), 'pseudoscalar(space)', 0.2))
        ps.append(P(ids, m, dump(n, ' ^ '.join('e(c<%d>)' % (i + 1) for i in range(n))), ret({(1 << n) - 1: ONE}), 'the outer product of the basis vectors in order', 0.2))
    m = MODELS['ga3e']
    fillk = lambda t: 'auto x = fill(%s(), a); ' % t
    ty = [('full_multivector_t<double, 3>', full('a', 3)), ('full_multivector_t<double, 3, 1, 2>', {b: V.var('a%d' % b) for b in range(8) if grade(b) in (1, 2)}),
          ('full_multivector_t<double, 3, 2>', {b: V.var('a%d' % b) for b in range(8) if grade(b) >= 2}), ('full_kvector_t<double, 3, 2>', kvec('a', 3, 2)), ('full_vector_t<double, 3>', kvec('a', 3, 1)),
          ('full_kvector_t<double, 3, 0>', {0: A(0)}), ('full_kvector_t<double, 3, 3>', {7: A(7)}), ('scaled_constant_basis_blade_t<double, 1, 3>', {5: A(5)}), ('scaled_constant_basis_blade_t<double, 2>', {2: A(2)}),
          ('scaled_constant_basis_vector_t<double, 3>', {4: A(4)}), ('scaled_scalar_t<double>', {0: A(0)}), ('scaled_pseudoscalar_t<double, 3>', {7: A(7)}),
          ('full_derived_multivector_t<double, typename decltype(e1 + (e2 ^ e3))::expression_type>', {1: A(1), 6: A(6)}), ('full_derived_multivector_t<double, typename decltype(c<3> + e2)::expression_type>', {0: A(0), 2: A(2)})]
    for t, v in ty:
        ps.append(P(ids, m, fillk(t) + dump(3, 'x'), ret(v), 'every coefficient of %s' % t, 0.3))
        ps.append(P(ids, m, 'std::size_t n = 0; for_each_component(%s(), [&](bitset_t const, auto const &, entry_source_t, entry_source_t, bool &) { n++; }); out[0] = (double)n;' % t, ret({0: V.const(len(v))}), 'number of components of %s' % t, 0.3))
    for t, v in (('unit_constant_basis_blade_t<1, 2>', {3: ONE}), ('unit_constant_basis_blade_t<2, 3>', {6: ONE}), ('unit_constant_basis_blade_t<>', {0: ONE}), ('unit_constant_basis_vector_t<3>', {4: ONE}), ('unit_pseudoscalar_t<3>', {7: ONE}), ('unit_scalar_t', {0: ONE})):
        ps.append(P(ids, m, dump(3, t + '()'), ret(v), t, 0.2))
    # basis vectors and blades of spaces of many dimensions: which bits the blade has is read back, as there is no room for all the coefficients
    for k in range(6, 64) if tier != 'quick' else (6, 7, 8, 15, 16, 17, 31, 32, 33, 34, 40, 47, 48, 52, 63):
        lo, hi = (1 << (k - 1)) & 0xffffffff, (1 << (k - 1)) >> 32
        b0 = {0: V.const(lo), 1: V.const(hi)}
        read = 'for_each_component(x, [&](bitset_t b, auto const &v, entry_source_t, entry_source_t, bool &) { out[0] = (double)(b & 0xffffffffull); out[1] = (double)(b >> 32); out[2] = (double)v; });'
        for t, cval in (('auto x = e(c<%d>);' % k, ONE), ('auto x = e(index_t(%d));' % k, ONE), ('auto x = a[0] * e(c<%d>);' % k, A(0)), ('index_t k = %d; auto x = a[0] * e(k);' % k, A(0)), ('auto x = unit_constant_basis_vector_t<%d>();' % k, ONE), ('auto x = unit_constant_basis_blade_t<%d>();' % k, ONE),
                        ('scaled_constant_basis_vector_t<double, %d> x(make_sequential_storage(a[0]));' % k, A(0)), ('scaled_constant_basis_blade_t<double, %d> x(make_sequential_storage(a[0]));' % k, A(0)), ('unit_basis_vector_t x(make_sequential_storage(bitset_t(1) << %d));' % (k - 1), ONE)):
            ps.append(P(ids, m, '%s %s' % (t, read), ret(clean({**b0, 2: cval})), 'bits and coefficient of the basis vector of %s' % t, 0.2))
        blo, bhi = (1 | 1 << (k - 1)) & 0xffffffff, (1 | 1 << (k - 1)) >> 32
        for t, cval in (('auto x = unit_constant_basis_blade_t<1, %d>();' % k, ONE), ('scaled_constant_basis_blade_t<double, 1, %d> x(make_sequential_storage(a[0]));' % k, A(0))):
            ps.append(P(ids, m, '%s %s' % (t, read), ret(clean({0: V.const(blo), 1: V.const(bhi), 2: cval})), 'bits and coefficient of the blade of %s' % t, 0.2))
        full_ = (1 << k) - 1
        for t, cval in (('auto x = unit_pseudoscalar_t<%d>();' % k, ONE), ('scaled_pseudoscalar_t<double, %d> x(make_sequential_storage(a[0]));' % k, A(0))):
            ps.append(P(ids, m, '%s %s' % (t, read), ret(clean({0: V.const(full_ & 0xffffffff), 1: V.const(full_ >> 32), 2: cval})), 'bits and coefficient of %s' % t, 0.2))
    # runtime-indexed blades built from their storage
    for t, bs, v in (('scaled_basis_blade_t<double, 1>', 4, 1), ('scaled_basis_blade_t<double, 2>', 5, 1), ('scaled_basis_blade_t<double, 0, 3>', 6, 1), ('scaled_basis_vector_t<double>', 2, 1), ('unit_basis_blade_t<1>', 4, 0), ('unit_basis_blade_t<0, 3>', 3, 0), ('unit_basis_vector_t', 1, 0)):
        src = '%s x(%smake_sequential_storage(bitset_t(%d))); ' % (t, 'make_sequential_storage(a[0]), ' if v else '', bs)
        ps.append(P(ids, m, src + dump(3, 'x'), ret({bs: A(0) if v else ONE}), '%s with basis blade %d' % (t, bs), 0.3))
    for e, v in (('scalar(a[0])', {0: A(0)}), ('scalar(scalar(a[0]))', {0: A(0)}), ('scalar(c<3>)', {0: V.const(3)}), ('c<3>', {0: V.const(3)}), ('c<-3>', {0: V.const(-3)}), ('c<0>', {}), ('c<2, double>', {0: V.const(2)}),
                 ('(constant<double, -4>())', {0: V.const(-4)}), ('scalar(3)', {0: V.const(3)}), ('scalar(-0.5f)', {0: V.const(Fr(-1, 2))})):
        ps.append(P(ids, m, dump(3, e), ret(clean(v)), e, 0.2))
    for e, v in (('(double)scalar(a[0])', A(0)), ('(double)c<-7>', V.const(-7)), ('(double)(scalar(a[0]) + c<1>)', A(0) + ONE), ('(double)(scalar(a[0]) * c<2>)', A(0).scale(2)), ('(double)(c<3> / c<2>)', V.const(Fr(3, 2))), ('(double)sp(a[0] * e1, b[0] * e1)', A(0) * B(0)),
                 ('(double)(e1 | e1)', ONE), ('(double)rnorm_sqr(a[0] * e1 + b[0] * e2)', A(0) * A(0) + B(0) * B(0)), ('static_cast<float>(c<2>)', V.const(2)), ('double(scalar(a[0]) - scalar(b[0]))', A(0) - B(0))):
        ps.append(P(ids, m, 'out[0] = %s;' % e, ret(sc(v)), 'conversion to a native number: %s' % e, 0.2))
    for M in GENERAL[:2]:
        n = len(M)
        al = ', '.join('a[%d]' % i for i in range(n))
        for e in ('vector(mtr, %s)' % al, 'vector(mtr, a, a + %d)' % n):
            ps.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp'), '%s %s' % (general_metric_src(M), dump(n, e)), ret(vec(*[A(i) for i in range(n)])), ns='ga', weight=0.4, what='metric matrix %s: %s' % (M, e)))
    for sig in ((1, 2, 0), (2, 1, 1), (0, 3, 0)):
        n = sum(sig)
        for e, v in (('vector(mtr, %s)' % ', '.join('a[%d]' % i for i in range(n)), vec(*[A(i) for i in range(n)])), ('pseudoscalar(mtr)', {(1 << n) - 1: ONE})):
            ps.append(Probe(ids(), ('gatl/ga.hpp', 'gatl/ga/model/general.hpp', 'gatl/ga/model/euclidean.hpp'), 'signed_metric_space<%d, %d, %d> mtr; %s' % (sig + (dump(n, e),)), ret(v), ns='ga', weight=0.3, what='signature %s: %s' % (sig, e)))
    return ps


# ---- C21
def model_constants(m):
    """Documented named elements, in the coordinates of the model."""
    d, n = m.d, m.n
    K = {'I': {(1 << n) - 1: ONE}, '_0': {}, '_1': scalar(1), '_2': scalar(2)}
    for i, nm in enumerate(m.names):
        K[nm] = {1 << i: ONE}
    if m.kind in 'ehmc':
        K['Ie'] = {(1 << d) - 1: ONE}
    if m.kind in 'mc':
        no, ni = null_vectors(m)
        K['no'], K['ni'] = no, ni
        if m.kind == 'c':
            K['ep'] = sub(scale(ni, Fr(1, 2)), no)
            K['em'] = add(scale(ni, Fr(1, 2)), no)
    return K


def c21(tier):
    ids = Ids('c21')
    ps = []
    for ns in sorted(MODELS):
        m = MODELS[ns]
        n, g, d = m.n, m.alg, m.d
        K = model_constants(m)
        for nm, v in sorted(K.items()):
            ps.append(P(ids, m, dump(n, nm), ret(v), 'constant %s' % nm, 0.2))
            ps.append(P(ids, m, dump(n, 'a[0] * %s' % nm), ret(scale(v, A(0))), 'a * %s' % nm, 0.2))
            ps.append(P(ids, m, 'full_multivector_t<double, %d> t; trivial_copy(%s, t); ' % (n, nm) + dump(n, 't'), ret(v), 'copy of %s to a stored multivector' % nm, 0.3))
        # the metric relations of all named vectors
        names = sorted(k for k, v in K.items() if v and all(grade(b) == 1 for b in v))
        for i, x in enumerate(names):
            for y in names[i:]:
                ps.append(P(ids, m, dump(n, '%s | %s' % (x, y)), ret(g.dot(K[x], K[y])), 'inner product of %s and %s' % (x, y), 0.2))
        # the size of the algebra
        ps.append(P(ids, m, 'out[0] = (double)decltype(space)::vector_space_dimensions;', ret({0: V.const(n)}), 'number of dimensions', 0.2))
        # Euclidean vectors
        x = coords(m, 'b')
        cs = coords_src(m, 'b')
        ev = ['euclidean_vector(%s)' % cs, 'euclidean_vector(space, %s)' % cs, 'euclidean_vector(b + 1, b + %d)' % (d + 1), 'euclidean_vector(space, b + 1, b + %d)' % (d + 1)]
        for e in ev:
            ps.append(P(ids, m, dump(n, e), ret(x), e, 0.3))
        xs = ['c<%d>' % (i - 2) if i % 2 else 'b[%d]' % (i + 1) for i in range(d)]
        xv = vec(*[V.const(i - 2) if i % 2 else B(i + 1) for i in range(d)])
        ps.append(P(ids, m, dump(n, 'euclidean_vector(%s)' % ', '.join(xs)), ret(xv), 'euclidean_vector(%s)' % ', '.join(xs), 0.3))
        xs2 = ['b[%d]' % (i + 1) if i % 2 else 'c<%d>' % (3 - i) for i in range(d)]
        xv2 = vec(*[B(i + 1) if i % 2 else V.const(3 - i) for i in range(d)])
        ps.append(P(ids, m, dump(n, 'euclidean_vector(%s)' % ', '.join(xs2)), ret(xv2), 'euclidean_vector(%s)' % ', '.join(xs2), 0.3))
        if m.kind not in 'hmc':
            continue
        pt = (lambda v, m=m: add(v, {1 << m.d: ONE})) if m.kind == 'h' else (lambda v, m=m: point(m, v))
        for e in ('point(%s)' % cs, 'point(space, %s)' % cs, 'point(b + 1, b + %d)' % (d + 1), 'point(space, b + 1, b + %d)' % (d + 1)):
            ps.append(P(ids, m, dump(n, e), ret(pt(x)), e, 0.3))
        for s, v in ((xs, xv), (xs2, xv2)):
            ps.append(P(ids, m, dump(n, 'point(%s)' % ', '.join(s)), ret(pt(v)), 'point(%s)' % ', '.join(s), 0.3))
        for cv in ([2, 4, 6, -3], [-1, 2, 3, 5], [0, 0, 0, 0], [3, 0, -5, 0]):
            s = ', '.join('c<%d>' % c for c in cv[:d])
            ps.append(P(ids, m, dump(n, 'point(%s)' % s), ret(pt(vec(*cv[:d]))), 'point(%s)' % s, 0.3))
            s = ', '.join('%d' % c for c in cv[:d])
            ps.append(P(ids, m, dump(n, 'point(%s)' % s), ret(pt(vec(*cv[:d]))), 'point(%s) of native integers' % s, 0.3))
        s = ', '.join('scalar(b[%d])' % (i + 1) for i in range(d))
        ps.append(P(ids, m, dump(n, 'point(%s)' % s), ret(pt(x)), 'point(%s)' % s, 0.3))
        ps.append(P(ids, m, 'std::array<double, %d> s; for (int i = 0; i < %d; i++) s[i] = b[i + 1]; ' % (d, d) + dump(n, 'point(s.begin(), s.end())'), ret(pt(x)), 'point(s.begin(), s.end()) of a std::array', 0.3))
        ps.append(P(ids, m, 'std::array<double, %d> s; for (int i = 0; i < %d; i++) s[i] = b[i + 1]; auto p = s.cbegin(); auto q = s.cend(); ' % (d, d) + dump(n, 'point(p, q)'), ret(pt(x)), 'point(p, q) of named iterators', 0.3))
        y = coords(m, 'a')
        if m.kind in 'mc':
            dd = sub(x, y)
            ps.append(P(ids, m, 'auto p = point(%s); auto q = point(%s); ' % (cs, coords_src(m, 'a')) + dump(n, 'p | q'), ret(scale(g.sp(dd, dd), Fr(-1, 2))), 'the inner product of two points is minus half the squared distance', 0.6))
            ps.append(P(ids, m, 'auto p = point(%s); ' % cs + dump(n, 'p * p'), ret({}), 'points are null', 0.5))
            ps.append(P(ids, m, 'auto p = point(%s); ' % cs + dump(n, '-ni | p'), ret(scalar(1)), 'points are of unit weight', 0.5))
        else:
            ps.append(P(ids, m, 'auto p = point(%s); ' % cs + dump(n, 'ep | p'), ret(scalar(1)), 'points are of unit weight', 0.5))
            ps.append(P(ids, m, 'auto p = point(%s); auto q = point(%s); ' % (cs, coords_src(m, 'a')) + dump(n, 'p - q'), ret(sub(x, y)), 'the difference of two points is a Euclidean vector', 0.5))
    return ps


# ---- C22
def both(ps, ids, m, decl, e, f, exp, what, w):
    """The call without and with the metric argument."""
    for args in ('', ', space'):
        ps.append(P(ids, m, decl + dump(m.n, e % args), exp, what + (' (metric given)' if args else ''), w))


def c22(tier):
    ids = Ids('c22')
    ps = []
    # homogeneous: direction and moment are linear: general k-vectors; support for every flat
    for ns in ('ga1h', 'ga2h', 'ga3h', 'ga4h'):
        m = MODELS[ns]
        n, g, d = m.n, m.alg, m.d
        ep = {1 << d: ONE}
        x = coords(m, 'b')
        p = add(x, ep)
        for k in range(1, n + 1):
            F = kvec('a', n, k)
            decl = 'auto x = %s; ' % kvec_src(n, 'a', k)
            w = 0.4 if n < 5 else 0.8
            both(ps, ids, m, decl, 'flat_direction(x%s)', None, ret(g.lcont(ep, F)), 'flat_direction of a general %d-vector' % k, w)
            both(ps, ids, m, decl, 'flat_moment(x%s)', None, ret(g.lcont(ep, g.op(ep, F))), 'flat_moment of a general %d-vector' % k, w)
        for k in range(0, d + 1):
            if d == 4 and k in (2,):
                continue
            E = eblade(m, k)
            F = g.op(p, E)
            q = g.rnorm_sqr(E)
            decl = literal(F, n)
            w = 0.6 if n < 5 else 1.5
            name = '%d-flat through a point with a given direction' % k
            both(ps, ids, m, decl, 'flat_direction(x%s)', None, ret(E), 'flat_direction of a %s' % name, w)
            both(ps, ids, m, decl, 'flat_moment(x%s)', None, ret(g.op(x, E)), 'flat_moment of a %s' % name, w)
            foot = lambda g=g, x=x, E=E: g.gp(g.op(x, E), g.inv(E))
            both(ps, ids, m, decl, 'flat_support_vector(x%s)', None, when_nonzero(q, foot), 'flat_support_vector of a %s' % name, w)
            both(ps, ids, m, decl, 'flat_unit_support_point(x%s)', None, when_nonzero(q, lambda foot=foot, ep=ep: add(foot(), ep)), 'flat_unit_support_point of a %s' % name, w)
        # written with the library: the line through two points
        if d >= 2:
            y = coords(m, 'a')
            L = sub(y, x)
            decl = 'auto x = point(%s) ^ point(%s); ' % (coords_src(m, 'b'), coords_src(m, 'a'))
            q = g.rnorm_sqr(L)
            ps.append(P(ids, m, decl + dump(n, 'flat_direction(x)'), ret(L), 'flat_direction of the line through two points', 0.5))
            ps.append(P(ids, m, decl + dump(n, 'flat_moment(x)'), ret(g.op(x, y)), 'flat_moment of the line through two points', 0.5))
            if d <= 3:
                ps.append(P(ids, m, decl + dump(n, 'flat_unit_support_point(x)'), when_nonzero(q, lambda g=g, x=x, y=y, L=L, ep=ep: add(g.gp(g.op(x, y), g.inv(L)), ep)), 'flat_unit_support_point of the line through two points', 1))
        # elements at the origin and with constant directions
        cdir = {1: ONE} if d == 1 else {1: ONE, 2: V.const(-2)}
        Fc = g.op(p, cdir)
        decl = 'auto x = point(%s) ^ (%s); ' % (coords_src(m, 'b'), 'e1' if d == 1 else 'e1 - c<2> * e2')
        both(ps, ids, m, decl, 'flat_direction(x%s)', None, ret(cdir), 'flat_direction of a line with a constant direction', 0.4)
        both(ps, ids, m, decl, 'flat_support_vector(x%s)', None, ret(g.gp(g.op(x, cdir), g.inv(cdir))), 'flat_support_vector of a line with a constant direction', 0.4)
    # null models
    for ns in GEO:
        m = MODELS[ns]
        n, g, d = m.n, m.alg, m.d
        no, ni = null_vectors(m)
        x = coords(m, 'b')
        c = point(m, x)
        w = {1: 0.6, 2: 1, 3: 2.5}[d]
        for k in range(0, d + 1):
            E = eblade(m, k)
            F = g.op(g.op(c, E), ni)
            D = g.dual(F)
            q = g.rnorm_sqr(E)
            dirn = g.op(E, ni)
            loc = lambda g=g, no=no, F=F: g.lcont(g.lcont(no, F), g.inv(F))
            name = '%d-flat through a point with a given direction' % k
            both(ps, ids, m, literal(F, n), 'primal_flat_direction(x%s)', None, ret(dirn), 'primal_flat_direction of a %s' % name, w)
            both(ps, ids, m, literal(D, n), 'dual_flat_direction(x%s)', None, ret(dirn), 'dual_flat_direction of a %s' % name, w)
            both(ps, ids, m, literal(F, n), 'primal_flat_location(x%s)', None, when_nonzero(q, loc), 'primal_flat_location of a %s' % name, w)
            both(ps, ids, m, literal(D, n), 'dual_flat_location(x%s)', None, when_nonzero(q, loc), 'dual_flat_location of a %s' % name, w)
        if d <= 2:
            y = coords(m, 'a')
            F = g.op(g.op(c, point(m, y)), ni)
            decl = 'auto x = point(%s) ^ point(%s) ^ ni; ' % (coords_src(m, 'b'), coords_src(m, 'a'))
            ps.append(P(ids, m, decl + dump(n, 'primal_flat_direction(x)'), ret(g.op(sub(y, x), ni)), 'primal_flat_direction of the line through two points', 1))
            ps.append(P(ids, m, decl + dump(n, 'dual_flat_direction(dual(x))'), ret(g.op(sub(y, x), ni)), 'dual_flat_direction of the line through two points', 1))
            # several forms of the location (dual, primal) must agree with the foot of the perpendicular in the Euclidean coordinates
        for k in range(0, d + 1):
            # the Euclidean part of the location is the foot of the perpendicular from the origin
            E = eblade(m, k)
            F = g.op(g.op(c, E), ni)
            q = g.rnorm_sqr(E)

            def euclid(g=g, E=E, x=x, k=k, d=d):
                return g.gp(g.op(x, E), g.inv(E)) if k < d else {}
            src = literal(F, n) + 'auto r = primal_flat_location(x); auto s = lcont(r, Ie) ; ' + 'auto y = lcont(s, inv(Ie)); ' + dump(n, 'y')
            # contraction onto Ie keeps the Euclidean part
            src = literal(F, n) + 'double t[%d] = {}; dump<%d>(primal_flat_location(x), t); ' % (1 << n, n) + 'for (int i = 0; i < %d; i++) out[i] = t[1 << i];' % d
            exp = lambda euclid=euclid, d=d: clean({i: euclid().get(1 << i, ZERO) for i in range(d)})
            ps.append(P(ids, m, src, when_nonzero(q, exp), 'the Euclidean part of primal_flat_location of a %d-flat is the foot of the perpendicular' % k, w))
    return ps


# ---- C23
def c23(tier):
    ids = Ids('c23')
    ps = []
    for ns in GEO:
        m = MODELS[ns]
        n, g, d = m.n, m.alg, m.d
        no, ni = null_vectors(m)
        x = coords(m, 'b')
        c = point(m, x)
        rho = V.var('b10')
        w = {1: 0.6, 2: 1.2, 3: 3}[d]
        for k in range(0, d + 1):
            E = eblade(m, k)
            q = g.rnorm_sqr(E)
            carrier = g.lcont(neg(c), g.op(involute(E), ni))
            R = g.op(add(c, scale(ni, rho.scale(Fr(1, 2)))), carrier)
            T = g.op(c, carrier)
            dirn = g.op(E, ni)
            name = 'round with a %d-dimensional carrier direction, a given center and squared radius' % k
            for pd, X in (('primal', R), ('dual', g.dual(R))):
                decl = literal(X, n)
                if ns == 'ga3m' and 1 <= k <= 2:
                    continue
                both(ps, ids, m, decl, pd + '_round_direction(x%s)', None, ret(dirn), '%s_round_direction of a %s' % (pd, name), w)
                both(ps, ids, m, decl, pd + '_round_location(x%s)', None, when_nonzero(q, lambda c=c: c), '%s_round_location of a %s' % (pd, name), w)
                both(ps, ids, m, decl, pd + '_round_size_sqr(x%s)', None, when_nonzero(q, lambda rho=rho: scalar(rho)), '%s_round_size_sqr of a %s' % (pd, name), w)
            name = 'tangent with a %d-dimensional direction at a given point' % k
            for pd, X in (('primal', T), ('dual', g.dual(T))):
                decl = literal(X, n)
                both(ps, ids, m, decl, pd + '_tangent_direction(x%s)', None, ret(dirn), '%s_tangent_direction of a %s' % (pd, name), w)
                both(ps, ids, m, decl, pd + '_tangent_location(x%s)', None, when_nonzero(q, lambda c=c: c), '%s_tangent_location of a %s' % (pd, name), w)
        # axis-aligned carriers and centers in the coordinate planes, where the general form is too large to compile
        if ns == 'ga3m':
            for k, Eb in ((1, 1), (1, 2), (1, 4), (2, 3), (2, 5), (2, 6)):
                for cc in ((1, 2), (2, 4), (1, 4)):
                    if tier == 'quick' and (Eb.bit_length() + cc[0]) % 3 != 0:
                        continue
                    E = {Eb: A(0)}
                    q = g.rnorm_sqr(E)
                    c2 = point(m, {b: v for b, v in x.items() if b in cc})
                    carrier = g.lcont(neg(c2), g.op(involute(E), ni))
                    R = g.op(add(c2, scale(ni, rho.scale(Fr(1, 2)))), carrier)
                    name = 'round with carrier direction %s and center in the plane of axes %s' % (bin(Eb), cc)
                    for pd, X in (('primal', R), ('dual', g.dual(R))):
                        both(ps, ids, m, sparse(X), pd + '_round_direction(x%s)', None, ret(g.op(E, ni)), '%s_round_direction of a %s' % (pd, name), 2)
                        both(ps, ids, m, sparse(X), pd + '_round_location(x%s)', None, when_nonzero(q, lambda c2=c2: c2), '%s_round_location of a %s' % (pd, name), 4)
                        both(ps, ids, m, sparse(X), pd + '_round_size_sqr(x%s)', None, when_nonzero(q, lambda rho=rho: scalar(rho)), '%s_round_size_sqr of a %s' % (pd, name), 3)
        # written with the library
        if d <= 2:
            cs, as_ = coords_src(m, 'b'), coords_src(m, 'a')
            y = coords(m, 'a')
            S = 'auto x = point(%s) - (b[10] / 2) * ni; ' % cs
            ps.append(P(ids, m, S + dump(n, 'dual_round_location(x)'), ret(c), 'dual_round_location of center - (r^2 / 2) ni', 0.8))
            ps.append(P(ids, m, S + dump(n, 'dual_round_size_sqr(x)'), ret(scalar(rho)), 'dual_round_size_sqr of center - (r^2 / 2) ni', 0.8))
            ps.append(P(ids, m, S + dump(n, 'primal_round_size_sqr(undual(x))'), ret(scalar(rho)), 'primal_round_size_sqr of the undual of center - (r^2 / 2) ni', 1))
            pp = 'auto x = point(%s) ^ point(%s); ' % (cs, as_)
            L = sub(x, y)
            q = g.sp(L, L).get(0, ZERO)
            mid = scale(add(x, y), Fr(1, 2))
            ps.append(P(ids, m, pp + dump(n, 'primal_round_location(x)'), when_nonzero(q, lambda m=m, mid=mid: point(m, mid)), 'primal_round_location of a point pair', 1))
            ps.append(P(ids, m, pp + dump(n, 'primal_round_size_sqr(x)'), when_nonzero(q, lambda q=q: scalar(q.scale(Fr(1, 4)))), 'primal_round_size_sqr of a point pair', 1))
            ps.append(P(ids, m, pp + dump(n, 'primal_round_direction(x)'), ret(g.op(neg(L), ni)), 'primal_round_direction of a point pair', 1))
            ps.append(P(ids, m, 'auto x = a[0] * point(%s); ' % cs + dump(n, 'primal_tangent_location(x)'), ret(c), 'primal_tangent_location of a weighted point', 0.8))
            ps.append(P(ids, m, 'auto x = a[0] * point(%s); ' % cs + dump(n, 'primal_round_size_sqr(x)'), ret({}), 'primal_round_size_sqr of a weighted point', 0.8))
    return ps


# ---- C24
def c24(tier):
    ids = Ids('c24')
    ps = []
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga4e', 'ga5e'):
        m = MODELS[ns]
        n, g = m.n, m.alg

        def proj(X, Y, g=g):
            return g.lcont(g.lcont(X, g.inv(Y)), Y)
        for r in range(0, n + 1):
            for s in range(1, n + 1):
                if n >= 4 and not (r <= 2 and s in (1, n - 1, n)):
                    continue
                if n == 5 and (r > 1 or s == 4):
                    continue
                X, Y = kvec('a', n, r), kvec('b', n, s)
                decl = 'auto x = %s; auto y = %s; ' % (kvec_src(n, 'a', r), kvec_src(n, 'b', s))
                q = g.rnorm_sqr(Y)
                w = 0.5 if n <= 3 else 1.5
                for args in ('', ', space'):
                    if n >= 4 and args:
                        continue
                    ps.append(P(ids, m, decl + dump(n, 'project(x, y%s)' % args), when_nonzero(q, lambda X=X, Y=Y, proj=proj: proj(X, Y)), 'project(x, y%s) of a general %d-vector and a general %d-vector' % (args, r, s), w))
                    ps.append(P(ids, m, decl + dump(n, 'reject(x, y%s)' % args), when_nonzero(q, lambda X=X, Y=Y, proj=proj: sub(X, proj(X, Y))), 'reject(x, y%s) of a general %d-vector and a general %d-vector' % (args, r, s), w))
        # consequences for vectors: the parts add up, the projection lies in y, the rejection is orthogonal to y
        for s in range(1, min(n, 3) + 1):
            if n > 3 and s != 1:
                continue
            X, Y = kvec('a', n, 1), kvec('b', n, s)
            decl = 'auto x = %s; auto y = %s; ' % (kvec_src(n, 'a', 1), kvec_src(n, 'b', s))
            q = g.rnorm_sqr(Y)
            if n <= 3:
                ps.append(P(ids, m, decl + dump(n, 'project(x, y) + reject(x, y)'), when_nonzero(q, lambda X=X: X), 'projection plus rejection of a vector by a general %d-vector' % s, 0.8))
                ps.append(P(ids, m, decl + dump(n, 'project(x, y) ^ y'), when_nonzero(q, lambda: {}), 'the projection of a vector lies in the %d-blade' % s, 0.8))
                ps.append(P(ids, m, decl + dump(n, 'lcont(reject(x, y), y)'), when_nonzero(q, lambda: {}), 'the rejection of a vector is orthogonal to the %d-blade' % s, 0.8))
                if n == 2 or s == 1:
                    ps.append(P(ids, m, decl + dump(n, 'project(project(x, y), y)'), when_nonzero(q, lambda X=X, Y=Y, proj=proj: proj(X, Y)), 'projecting twice onto a %d-blade' % s, 1))
        # constant operands
        for b in sorted({1, (1 << n) - 1, 3 if n > 1 else 1}):
            X = kvec('a', n, 1)
            decl = 'auto x = %s; ' % kvec_src(n, 'a', 1)
            ps.append(P(ids, m, decl + dump(n, 'project(x, %s)' % m.blade_src(b)), ret(proj(X, {b: ONE})), 'projection of a vector onto %s' % m.blade_src(b), 0.4))
            ps.append(P(ids, m, decl + dump(n, 'reject(x, %s)' % m.blade_src(b)), ret(sub(X, proj(X, {b: ONE}))), 'rejection of a vector by %s' % m.blade_src(b), 0.4))
            ps.append(P(ids, m, 'auto y = %s; ' % kvec_src(n, 'b', 1) + dump(n, 'project(e1, y)'), when_nonzero(g.rnorm_sqr(kvec('b', n, 1)), lambda n=n, proj=proj: proj({1: ONE}, kvec('b', n, 1))), 'projection of e1 onto a vector (%d)' % b, 0.4))
    for ns in ('ga1h', 'ga2h', 'ga3h', 'ga4h'):
        m = MODELS[ns]
        n, g, d = m.n, m.alg, m.d
        ep = {1 << d: ONE}
        t = coords(m, 'b')
        td = 'auto t = euclidean_vector(%s); ' % coords_src(m, 'b')
        for k in range(0, n + 1):
            F = kvec('a', n, k)
            exp = add(F, g.op(t, g.lcont(ep, F)))
            for args in ('', ', space'):
                ps.append(P(ids, m, 'auto x = %s; ' % kvec_src(n, 'a', k) + td + dump(n, 'translate(t, x%s)' % args), ret(exp), 'translate(t, x%s) of a general %d-vector' % (args, k), 0.5))
        # points move by t, flats through points go through the moved points
        p = coords(m, 'a')
        pd = 'auto p = point(%s); ' % coords_src(m, 'a')
        ps.append(P(ids, m, td + pd + dump(n, 'translate(t, p)'), ret(add(add(p, t), ep)), 'translation of a point', 0.4))
        q = {1 << i: V.var('a%d' % (10 + i)) for i in range(d)}
        qd = 'auto q = point(%s); ' % ', '.join('a[%d]' % (10 + i) for i in range(d))
        ps.append(P(ids, m, td + pd + qd + dump(n, 'translate(t, p ^ q)'), ret(g.op(add(add(p, t), ep), add(add(q, t), ep))), 'translation of the line through two points', 0.6))
        ps.append(P(ids, m, td + pd + qd + dump(n, 'flat_direction(translate(t, p ^ q))'), ret(sub(q, p)), 'a translation keeps the direction of a line', 0.8))
        ps.append(P(ids, m, pd + dump(n, 'translate(e1, p)'), ret(add(add(p, {1: ONE}), ep)), 'translation of a point by a constant direction', 0.3))
        ps.append(P(ids, m, td + dump(n, 'translate(t, ep)'), ret(add(t, ep)), 'translation of the origin', 0.3))
    return ps
