"""C33: coefficient types."""
from ..common import *
from ..refga import add as add_mv
from .models import point
from .algebra import sqrt, when_nonzero, when_nonneg, sc, Fr

HELP = '''#ifndef GATLCHECK_TYPES
#define GATLCHECK_TYPES
namespace gatlcheck {
    // Writes the coefficients without a conversion to a narrower type.
    template<int ND, typename X, typename T>
    static inline void put(X const &r, T *out) {
        T o[std::size_t(1) << ND] = {};
        if constexpr (ga::is_clifford_expression_v<X>) ga::for_each_component(r, [&](ga::bitset_t const bs, auto const &v, ga::entry_source_t, ga::entry_source_t, bool &) { o[bs] += v; });
        else o[0] = r;
        for (std::size_t i = 0; i < (std::size_t(1) << ND); i++) out[i] = o[i];
    }
    template<typename X> struct coef { using type = X; };
    template<typename C, typename E> struct coef<ga::clifford_expression<C, E> > { using type = C; };
    template<typename C, typename E> struct coef<ga::clifford_expression<C, E> const> { using type = C; };
    template<typename X> using coef_t = typename coef<std::remove_const_t<std::remove_reference_t<X> > >::type;
    // X is at least as wide as the common type of T...
    template<typename X, typename... T> constexpr bool wide_v = std::is_same_v<std::common_type_t<X, T...>, X> || (std::is_integral_v<X> && std::is_integral_v<std::common_type_t<T...> > && sizeof(X) >= sizeof(std::common_type_t<T...>));
    template<typename M, typename S> static inline M put_in(M m, S const *src) {
        auto it = m.values().begin();
        ga::for_each_component(m, [&](ga::bitset_t const bs, auto const &, ga::entry_source_t, ga::entry_source_t, bool &) { *it = src[bs]; ++it; });
        return m;
    }
}
#endif
'''
SIZE = {'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8, 'long double': 16}
INT = ('short', 'int', 'long')
RANK = ['short', 'int', 'long', 'float', 'double', 'long double']


def c33(tier):
    ids = Ids('c33')
    ps = []
    pairs = [('int', 'int'), ('int', 'long'), ('long', 'int'), ('long', 'long'), ('short', 'short'), ('short', 'long'), ('int', 'double'), ('double', 'int'), ('long', 'double'), ('double', 'long'),
             ('float', 'double'), ('double', 'float'), ('float', 'float'), ('float', 'int'), ('int', 'float'), ('double', 'double'), ('long double', 'double'), ('double', 'long double'), ('long double', 'float'), ('int', 'long double'), ('float', 'long')]

    def add(m, T, U, decls, expr, spec, what, exact, weight=0.5, wide=None):
        ot = 'long' if exact else ('long double' if 'long double' in (T, U) else 'double')
        n = m.n
        body = '%s auto r = %s; static_assert(gatlcheck::wide_v<gatlcheck::coef_t<decltype(r)>, %s>, "the result is narrower than the operands"); ' % (decls, expr, ', '.join(wide or (T, U)))
        if exact:
            body += 'static_assert(std::is_integral_v<gatlcheck::coef_t<decltype(r)> >, "integers became inexact"); '
        body += 'gatlcheck::put<%d>(r, out);' % n
        ps.append(Probe(ids(), m.header, body, spec, ns=m.ns, weight=weight, what='%s: %s and %s: %s' % (m.ns, T, U, what), prelude=HELP,
                        elem={'a': SIZE[T], 'b': SIZE[U], 'out': SIZE[ot], '': 8}, strict='exact' if exact else 'float', sig='%s const *a, %s const *b, %s *out' % (T, U, ot)))
    for ns in ('ga3e', 'ga2m', 'ga2c') if tier == 'quick' else ('ga2e', 'ga3e', 'ga2m', 'ga2c', 'ga2h', 'ga2p'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        for T, U in pairs:
            if ns != 'ga3e' and tier == 'quick' and (T, U) not in (('int', 'long'), ('long', 'int'), ('float', 'double'), ('double', 'float'), ('int', 'double'), ('float', 'float')):
                continue
            exact = T in INT and U in INT
            X, Y = kvec('a', n, 1), kvec('b', n, 2)
            F = full('a', n)
            x = 'auto x = gatlcheck::put_in(full_vector_t<%s, %d>(), a); ' % (T, n)
            y = 'auto y = gatlcheck::put_in(full_kvector_t<%s, %d, 2>(), b); ' % (U, n)
            f = 'auto f = gatlcheck::put_in(full_multivector_t<%s, %d>(), a); ' % (T, n)
            h = 'auto h = gatlcheck::put_in(full_multivector_t<%s, %d>(), b); ' % (U, n)
            H = full('b', n)
            for op, fn in (('x * y', g.gp), ('x ^ y', g.op), ('rp(x, y)', g.rp), ('lcont(x, y)', g.lcont), ('rcont(y, x)', lambda p, q: g.rcont(q, p)), ('dot(x, y)', g.dot), ('hip(x, y)', g.hip), ('x + y', add_mv), ('x - y', sub)):
                if ns != 'ga3e' and op in ('rp(x, y)', 'dot(x, y)', 'hip(x, y)', 'x - y'):
                    continue
                add(m, T, U, x + y, op, ret(fn(X, Y)), op, exact, 0.6)
            add(m, T, U, x + 'auto z = gatlcheck::put_in(full_vector_t<%s, %d>(), b); ' % (U, n), 'sp(x, z)', ret(g.sp(X, kvec('b', n, 1))), 'sp(x, z)', exact)
            add(m, T, U, x + 'auto z = gatlcheck::put_in(full_vector_t<%s, %d>(), b); ' % (U, n), 'x + z', ret(add_mv(X, kvec('b', n, 1))), 'x + z of like components', exact)
            if n == 3:
                add(m, T, U, f + h, 'f * h', ret(g.gp(F, H)), 'product of general multivectors', exact, 1)
                add(m, T, U, f + h, 'f + h', ret(add_mv(F, H)), 'sum of general multivectors', exact)
            # native numbers and constants
            add(m, T, U, x, 'b[0] * x', ret({k: v * B(0) for k, v in X.items()}), 'native number times x', exact)
            add(m, T, U, x, 'x * b[0]', ret({k: v * B(0) for k, v in X.items()}), 'x times a native number', exact)
            add(m, T, U, x, 'x + b[0]', ret(dict(X, **{}) | {0: B(0)}), 'x plus a native number', exact)
            add(m, T, U, x, 'b[0] - x', ret({k: -v for k, v in X.items()} | {0: B(0)}), 'a native number minus x', exact)
            add(m, T, U, '', 'scalar(a[0]) * scalar(b[0])', ret({0: A(0) * B(0)}), 'product of scalars', exact)
            add(m, T, U, '', 'scalar(a[0]) + b[0]', ret({0: A(0) + B(0)}), 'sum of scalars', exact)
            add(m, T, U, x, 'x / b[0]', when_nonzero(B(0), lambda X=X: {k: v / B(0) for k, v in X.items()}), 'x divided by a native number', False)
            # vectors from coordinates of mixed types
            co = ', '.join(['a[0]', 'b[0]', 'a[1]', 'b[1]'][:n])
            add(m, T, U, '', 'vector(%s)' % co, ret({1 << i: [A(0), B(0), A(1), B(1)][i] for i in range(n)}), 'vector of mixed coordinates', exact)
            if ns in ('ga2m', 'ga2c'):
                add(m, T, U, '', 'point(a[0], b[0])', ret(point(m, {1: A(0), 2: B(0)})), 'point of mixed coordinates', False)
            if T == U or tier != 'quick':
                add(m, T, T, f, 'reverse(f)', ret(reverse(F)), 'reverse', exact)
                add(m, T, T, f, '-f', ret(neg(F)), 'negation', exact)
                add(m, T, T, f, 'take_grade(f, c<2>)', ret(take(F, 2)), 'take_grade', exact)
                add(m, T, T, x, 'x * c<3> + c<2>', ret({k: v.scale(3) for k, v in X.items()} | {0: V.const(2)}), 'arithmetic with constants', exact)
                add(m, T, T, x, 'x + e1', ret(add_mv(X, {1: ONE})), 'sum with a basis vector', exact)
                add(m, T, T, x, 'rnorm_sqr(x)', ret(sc(g.rnorm_sqr(X))), 'rnorm_sqr', exact)
                add(m, T, T, x, 'dual(x)', ret(g.dual(X)), 'dual', exact)
    return ps




# ---------------------------------------------------------------- default tolerances of each coefficient type (C04, C16, C17, C18, C26)
def default_tol(T):
    import struct
    return {'float': V.const(Fr(struct.unpack('f', struct.pack('f', 1e-8))[0])), 'double': V.const(1e-8)}.get(T, ZERO)


def common(T, U):
    return 'double' if {T, U} & {'float', 'double'} and 'double' in (T, U) else 'float' if 'float' in (T, U) else max(T, U, key=RANK.index)


def typed(ids, m, T, U, body, spec, what, ot='double', weight=0.5):
    return Probe(ids(), m.header, body, spec, ns=m.ns, weight=weight, what='%s: %s and %s coefficients: %s' % (m.ns, T, U, what), prelude=HELP,
                 elem={'a': SIZE[T], 'b': SIZE[U], 'out': SIZE[ot], '': 8}, sig='%s const *a, %s const *b, %s *out' % (T, U, ot))


def put_src(nm, T, shape, src):
    return 'auto %s = gatlcheck::put_in(%s, %s); ' % (nm, shape % T, src)


PAIRS_T = [('int', 'double'), ('double', 'int'), ('int', 'int'), ('float', 'float'), ('float', 'double'), ('double', 'float'), ('int', 'float'), ('float', 'int'), ('long', 'int')]


def typed_c04(tier):
    from .products import largest_grade_spec
    ids = Ids('c04t')
    ps = []
    for ns in ('ga2e', 'ga3e', 'ga1c', 'ga1m'):
        m = MODELS[ns]
        n = m.n
        for T, U in PAIRS_T:
            if n == 3 and ns != 'ga3e' and (T, U) not in (('int', 'double'), ('float', 'double'), ('int', 'int')):
                continue
            for r, s in ((1, 1), (1, 2), (2, 1)):
                if r + s > 2 and (ns != 'ga3e' or (T, U) not in (('int', 'double'), ('float', 'double')) or (tier == 'quick' and r == 2)):
                    continue
                P_ = m.alg.gp(kvec('a', n, r), kvec('b', n, s))
                d = put_src('x', T, 'full_kvector_t<%%s, %d, %d>()' % (n, r), 'a') + put_src('y', U, 'full_kvector_t<%%s, %d, %d>()' % (n, s), 'b')
                for call in ('dp(x, y)', 'dp(x, y, space)'):
                    if call != 'dp(x, y)' and (ns != 'ga3e' or (T, U) not in (('int', 'double'), ('double', 'int')) or r + s > 2):
                        continue
                    ps.append(typed(ids, m, T, U, d + 'gatlcheck::put<%d>(%s, out);' % (n, call), largest_grade_spec(P_, default_tol(common(T, U))), '%s, x a vector of grade %d, y of grade %d' % (call, r, s), weight=1.2))
    return ps


def typed_c16(tier):
    from .algebra import grade_spec, lgrade_spec, GOUT
    ids = Ids('c16t')
    ps = []
    for ns in ('ga2e', 'ga3e', 'ga2c'):
        m = MODELS[ns]
        n = m.n
        for T in ('int', 'long', 'short', 'float', 'double'):
            tol = default_tol(T)
            for what, shape, X in (('a vector', 'full_vector_t<%%s, %d>()' % n, kvec('a', n, 1)), ('a multivector of grades 0 to 1', 'full_multivector_t<%%s, %d, 0, 1>()' % n, {b: A(b) for b in range(1 << n) if bin(b).count('1') <= 1})):
                d = put_src('x', T, shape, 'a')
                ps.append(typed(ids, m, T, T, d + GOUT % 'grade(x)', grade_spec(X, tol), 'grade(x), x ' + what))
                ps.append(typed(ids, m, T, T, d + GOUT % 'largest_grade(x)', lgrade_spec(X, tol), 'largest_grade(x), x ' + what))
            if T != 'short':
                for X, e in (({0: A(0)}, 'a[0]'), ({1: A(0)}, 'a[0] * e1')):
                    ps.append(typed(ids, m, T, T, GOUT % ('grade(%s)' % e), grade_spec(X, tol), 'grade(%s)' % e))
                    ps.append(typed(ids, m, T, T, GOUT % ('largest_grade(%s)' % e), lgrade_spec(X, tol), 'largest_grade(%s)' % e))
    return ps


def typed_c17(tier):
    from .products import largest_grade_spec
    ids = Ids('c17t')
    ps = []
    for ns in ('ga2e', 'ga3e', 'ga2c'):
        m = MODELS[ns]
        n = m.n
        for T in ('int', 'long', 'float', 'double'):
            X = {b: A(b) for b in range(1 << n) if bin(b).count('1') in (0, 1)}
            d = put_src('x', T, 'full_multivector_t<%%s, %d, 0, 1>()' % n, 'a')
            ps.append(typed(ids, m, T, T, d + 'gatlcheck::put<%d>(take_largest_grade(x), out);' % n, largest_grade_spec(X, default_tol(T)), 'take_largest_grade(x), x of grades 0 to 1', weight=0.8))
    return ps


def typed_c18(tier):
    from .maths import within
    ids = Ids('c18t')
    ps = []
    for ns in ('ga2e', 'ga3e', 'ga2c'):
        m = MODELS[ns]
        n = m.n
        for T, U in PAIRS_T + [('double', 'double')]:
            # the target is at least as wide as the source, so that no coefficient changes
            tol = default_tol(T)
            d = put_src('x', T, 'full_multivector_t<%%s, %d, 0, 1>()' % n, 'a') + put_src('t', U, 'full_vector_t<%%s, %d>()' % n, 'b')

            def spec(dec, tol=tol, n=n, T=T, U=U):
                if not within(dec, A(0), tol):
                    return ('throw', 'bad_checked_copy')
                return ('ret', {1 << i: A(1 << i) for i in range(n)})
            if common(T, U) != U:
                continue
            ps.append(typed(ids, m, T, U, d + 'checked_trivial_copy(x, t); gatlcheck::put<%d>(t, out);' % n, spec, 'checked_trivial_copy(x, t) from grades 0 to 1 to grade 1'))
    return ps


def typed_c26(tier):
    from .maths import within, tol_of
    from ..ring import vabs
    ids = Ids('c26t')
    ps = []
    for ns in ('ga2e', 'ga3e', 'ga2c', 'ga2m'):
        m = MODELS[ns]
        n = m.n
        for T in ('int', 'long', 'float', 'double'):
            tol = default_tol(T)
            X = kvec('a', n, 1)
            q = m.alg.rnorm_sqr(X)
            d = put_src('x', T, 'full_vector_t<%%s, %d>()' % n, 'a')
            for f, vals in (('is_zero', list(X.values())), ('is_null', [q]), ('is_unit', [vabs(q) - ONE])):
                def spec(dec, vals=vals, tol=tol):
                    return ('ret', sc(ONE) if tol_of(dec, vals, tol) else {})
                ps.append(typed(ids, m, T, T, d + 'out[0] = %s(x) ? 1.0 : 0.0;' % f, spec, '%s(x), x a vector' % f))
    return ps
