"""C27-C30, C33: lifetimes and effects, rejected programs, namespaces, headers, coefficient types."""
from ..common import *
from ..ring import vabs
from .algebra import P, sc, sqrt, when_nonneg, when_nonzero, Fr
from .models import blade_src
from .storage import forms, OPS

NSS = sorted(MODELS)
HEADERS = ['gatl/%s.hpp' % ns for ns in NSS]


# ---------------------------------------------------------------- C27
def c27(tier):
    from .. import registry
    ids = Ids('c27')
    ps = []
    # every operation leaves its operands as they were
    k = 0
    for ns in ('ga3e', 'ga2m', 'ga2c', 'ga2h', 'ga2p', 'ga1e', 'ga3h'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        sz = 1 << n
        L = [(s, v) for s, v, nat, _ in forms(m, 'a') if not nat]
        R = [(s, v) for s, v, nat, _ in forms(m, 'b') if not nat]
        both = 'dump<%d>(x, out); dump<%d>(y, out + %d);' % (n, n, sz)
        two = [o for o, _ in OPS if 'space' not in o]
        one = ['-{0}', '+{0}', '~{0}', 'involute({0})', 'conjugate({0})', 'rnorm_sqr({0})', 'rnorm({0})', 'unit({0})', 'grade({0})', 'largest_grade({0})', 'take_grade({0}, 1)', 'take_largest_grade({0})',
               'is_zero({0})', 'is_null({0})', 'is_unit({0})', 'dual({0})', 'undual({0})', 'b[9] * {0}', '{0} / 3.0', '3 - {0}']
        for i, (ls, lv) in enumerate(L):
            for j, (rs, rv) in enumerate(R):
                for op in two:
                    k += 1
                    if (k * 40503 % 65536) > 65536 * (.004 if tier == 'quick' else .05):
                        continue
                    w = dict(lv)
                    w.update({b + sz: v for b, v in rv.items()})
                    ps.append(P(ids, m, 'auto x = %s; auto y = %s; auto r = %s; (void)r; %s' % (ls, rs, op.format('x', 'y'), both), ret(w), 'operands after %s, %s and %s' % (op.format('x', 'y'), ls, rs), 0.4))
                    ps[-1].spec = whole(w, 2 * sz)
            for op in one:
                k += 1
                if 'dual' in op and m.kind == 'p' or (k * 40503 % 65536) > 65536 * (.12 if tier == 'quick' else .8):
                    continue
                if ('rnorm' in op or 'unit(' in op) and op not in ('rnorm_sqr({0})',) and (not g.rnorm_sqr(lv).t or g.rnorm_sqr(lv).is_const()):
                    continue
                if ls == 'no' or 'ni' in ls:
                    continue
                ps.append(P(ids, m, 'auto x = %s; auto r = %s; (void)r; %s' % (ls, op.format('x'), dump(n, 'x')), whole(lv, sz), 'operand after %s, %s' % (op.format('x'), ls), 0.4))
            # copies are independent of what they were made from
            for cp, w in (('auto y = x;', 'a copy'), ('auto const z = x; auto y = z;', 'a copy of a constant'), ('auto f = [](auto v) { return v; }; auto y = f(x);', 'a result of a function'), ('auto z = x; auto y = std::move(z);', 'a moved copy'),
                          ('auto y = x; y = x;', 'an assigned copy'), ('auto [lazy, l] = make_lazy_context_tuple(x); auto y = lazy.eval(l);', 'an evaluated lazy argument')):
                k += 1
                if k % (3 if tier == 'quick' else 1) and ns != 'ga3e':
                    continue
                ps.append(P(ids, m, 'auto x = %s; %s dump<%d>(y, out); dump<%d>(x, out + %d);' % (ls, cp, n, n, sz), whole(twice(lv, sz), 2 * sz), '%s of %s' % (w, ls), 0.4))
    # results and lazy contexts outlive the temporaries they are made from
    for ns in ('ga3e', 'ga2m', 'ga2c', 'ga2h', 'ga2p', 'ga1e', 'ga4e'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        L = [(s, v) for s, v, nat, _ in forms(m, 'a') if not nat]
        if n <= 3:
            L.append((full_src(n, 'a'), full('a', n)))
        for s, v in L:
            k += 1
            if ns not in ('ga3e', 'ga2m') and k % 3 and tier == 'quick' or len(v) > 5:
                continue
            b1 = {1: B(1)}
            y = 'b[1] * %s' % m.names[0]
            gp = g.gp(v, b1)
            for body, w, t in (
                ('auto lazy = make_lazy_context(%s, %s); auto x = lazy.template argument<0>(); auto y = lazy.template argument<1>(); auto r = lazy.eval(x * y);' % (s, y), gp, 'a context over temporaries'),
                ('auto lazy = make_lazy_context(%s + c<0>, %s + scalar(0.0) * %s); auto x = lazy.template argument<0>(); auto y = lazy.template argument<1>(); auto f = x * y; auto r = lazy.eval(f);' % (s, y, m.names[0]), gp, 'a context over computed temporaries'),
                ('auto mk = [&] { auto p = %s; auto q = %s; return make_lazy_context(p, q); }; auto lazy = mk(); auto x = lazy.template argument<0>(); auto y = lazy.template argument<1>(); auto r = lazy.eval(x * y);' % (s, y), gp, 'a context returned from a function'),
                ('auto mk = [&] { auto p = %s; auto q = %s; return make_lazy_context_tuple(p, q); }; auto [lazy, x, y] = mk(); auto r = lazy.eval(x * y);' % (s, y), gp, 'a tuple of a context returned from a function'),
                ('auto [lazy, x, y] = make_lazy_context_tuple(%s, %s); auto r = lazy.eval(x * y);' % (s, y), gp, 'a tuple of a context over temporaries'),
                ('auto mk = [&] { auto p = %s; auto q = %s; auto [lazy, x, y] = make_lazy_context_tuple(p, q); return lazy.eval(x * y); }; auto r = mk();' % (s, y), gp, 'an evaluated expression returned from a function'),
                ('auto mk = [&] { auto p = %s; auto q = %s; return p * q; }; auto r = mk();' % (s, y), gp, 'a product returned from a function'),
                ('auto mk = [&] { auto p = %s; auto const q = %s; return (p + q) - q; }; auto r = mk();' % (s, y), v, 'a sum returned from a function'),
                ('auto &&r = (%s) * (%s);' % (s, y), gp, 'a product bound to a reference'),
                ('auto mk = [&] { auto p = %s; return std::make_tuple(p, ~p); }; auto t = mk(); auto r = std::get<1>(t);' % s, reverse(v), 'a tuple of results'),
                ('auto p = %s; auto [lazy, x] = make_lazy_context_tuple(p); auto l2 = lazy; auto r = l2.eval(x + x);' % s, add(v, v), 'a copy of a context'),
            ):
                k += 1
                if tier == 'quick' and ns not in ('ga3e',) and k % 2:
                    continue
                ps.append(P(ids, m, body + ' ' + dump(n, 'r'), whole(w, 1 << n), '%s: %s' % (t, s), 0.5))
        # coefficients given as temporaries, tolerances and grades of every kind
        for body, w, t in (
            ('auto x = scalar(a[0] + a[1]) * %s;' % m.names[0], {1: A(0) + A(1)}, 'a scalar made from a temporary'),
            ('auto const &x = scalar(a[0] + a[1]);', {0: A(0) + A(1)}, 'a reference to a scalar made from a temporary'),
            ('auto const &x = scalar(scalar(a[0]) + scalar(a[1]));', {0: A(0) + A(1)}, 'a reference to a scalar made from a scalar'),
            ('auto &&x = scalar(scalar(a[0]) * scalar(a[1]));', {0: A(0) * A(1)}, 'a reference to a scalar made from a product'),
            ('auto mk = [&] { auto p = scalar(a[0]); return scalar(p + p); }; auto &&x = mk();', {0: A(0) + A(0)}, 'a reference to a scalar returned from a function'),
            ('auto x = (a[0] + a[1]) * %s;' % m.names[0], {1: A(0) + A(1)}, 'a product with a native temporary'),
            ('auto mk = [](double v) { return v * %s; }; auto x = mk(a[0]);' % m.names[0], {1: A(0)}, 'a product with a parameter'),
            ('auto mk = [](double v) { return scalar(v); }; auto x = mk(a[0]) * %s;' % m.names[0], {1: A(0)}, 'a scalar of a parameter'),
            ('auto mk = [&] { double v[] = {%s}; return vector(v, v + %d); }; auto x = mk();' % (', '.join('a[%d]' % (1 << i) for i in range(n)), n), {1 << i: A(1 << i) for i in range(n)}, 'a vector of local coordinates'),
        ):
            ps.append(P(ids, m, body + ' ' + dump(n, 'x'), whole(w, 1 << n), t, 0.4))
    # coefficients that are objects: nothing is moved out of an operand that the caller still holds
    for ns in ('ga3e', 'ga3c', 'ga3h', 'ga3m', 'ga3p'):
        m = MODELS[ns]
        g, nm = m.alg, m.names[0]
        xyz = {1: A(1), 2: A(2), 4: A(3)}
        arg = {0: A(0), 1: A(1), 2: A(2), 3: A(3)}
        at = lambda v: {8 + b: x for b, x in v.items()}
        ev = 'auto v = euclidean_vector(x, y, z); '
        s1 = {1: A(0)}
        pt = {'c': {8: ONE, 16: (A(1) * A(1) + A(2) * A(2) + A(3) * A(3)) * V.const(Fr(1, 2))}, 'h': {8: ONE}}.get(m.kind)
        S = lambda v, x: {b: w * x for b, w in v.items()}
        for body, r, w in (
            ('auto r = scalar(s);', 'r', {0: A(0)}), ('auto const r = scalar(s); auto q = scalar(r);', 'q', {0: A(0)}), ('auto r = scalar(s); auto q = scalar(r);', 'r', {0: A(0)}), ('auto r = scalar(s); auto q = scalar(r);', 'q', {0: A(0)}),
            ('auto r = scalar(s); auto q = scalar(std::move(r));', 'q', {0: A(0)}), ('auto r = scalar(scalar(s));', 'r', {0: A(0)}), ('auto r = scalar(Owned(s));', 'r', {0: A(0)}),
            ('auto r = s * %s;' % nm, 'r', s1), ('auto r = %s * s;' % nm, 'r', s1), ('auto r = gp(s, %s);' % nm, 'r', s1), ('auto r = op(s, %s);' % nm, 'r', s1), ('auto r = s ^ %s;' % nm, 'r', s1),
            ('auto r = s + %s;' % nm, 'r', {0: A(0), 1: ONE}), ('auto r = %s - s;' % nm, 'r', {0: -A(0), 1: ONE}),
            ('auto r = s; r = r + s; auto q = scalar(r);', 'q', {0: A(0) + A(0)}),
            ('scaled_scalar_t<Owned> r(make_sequential_storage(s));', 'r', {0: A(0)}), ('auto st = make_sequential_storage(s); scaled_scalar_t<Owned> q(st), r(st);', 'r', {0: A(0)}),
            ('auto st = make_sequential_storage(x, y, z); full_vector_t<Owned, 3> q(st), r(st);', 'r', xyz), ('full_vector_t<Owned, 3> r(make_sequential_storage(x, y, z));', 'r', xyz),
            ('scaled_basis_blade_t<Owned, 1> r(make_sequential_storage(s), make_sequential_storage(bitset_t(1)));', 'r', s1),
            (ev, 'v', xyz), (ev + 'auto q = v; auto t = v + q; auto u = v * q;', 'v', xyz), (ev + 'auto q = v; auto t = v + q;', 't', S(xyz, V.const(2))),
            (ev + 'auto t = v ^ v; auto u = v | v; auto w = reverse(v); auto h = take_grade(v, c<1>);', 'v', xyz), (ev + 'auto w = reverse(v);', 'w', xyz), (ev + 'auto t = gp(v, v, space);', 'v', xyz),
            (ev + 'auto [l, p] = make_lazy_context_tuple(v); auto t = l.eval(p * p);', 'v', xyz), (ev + 'auto [l, p, h] = make_lazy_context_tuple(v, s * %s); auto t = l.eval(p + h);' % nm, 'v', xyz), (ev + 'auto t = rnorm_sqr(v);', 'v', xyz),
            (ev + 'auto t = v; t = v;', 't', xyz), (ev + 'auto t = v; t = v;', 'v', xyz), (ev + 'auto t = -v; auto u = s * v;', 'v', xyz), (ev + 'auto t = s * v;', 't', S(xyz, A(0))), (ev + 'auto t = v * s;', 't', S(xyz, A(0))),
            (ev + 'auto t = std::move(v);', 't', xyz), ('auto v = vector(x, y, z%s);' % ''.join(', s' for _ in range(m.n - 3)), 'v', {**xyz, **{1 << i: A(0) for i in range(3, m.n)}}),
            ('Owned w[3] = {x, y, z}; auto r = euclidean_vector(w, w + 3); auto q = euclidean_vector(w, w + 3);', 'q', xyz),
        ) + ((('auto r = point(x, y, z);', 'r', {**xyz, **pt}),) if pt else ()):
            k += 1
            if ns != 'ga3e' and tier == 'quick' and k % 4:
                continue
            ps.append(P(ids, m, 'Owned s(a[0]), x(a[1]), y(a[2]), z(a[3]); ' + body + ' out[0] = s.v; out[1] = x.v; out[2] = y.v; out[3] = z.v; for_each_component(%s, [&](bitset_t const s_, auto const &v_, entry_source_t, entry_source_t, bool &) { out[8 + s_] = worth(v_); });' % r,
                        (lambda dec, e={**arg, **at(w)}: ('ret', e)), 'coefficients that are objects: %s then %s' % (body, r), 0.5, prelude=OWNED))
    # the analysed programs of every other property: lifetimes, initialisation and effects on every path
    per = 24 if tier == 'quick' else 200
    for pid, prop in sorted(registry.table().items()):
        if pid in ('C27', 'C28', 'C29', 'C30'):
            continue
        src = [p for p in prop.probes('quick') if p.kind == 'value' and not (pid == 'C10' and 'not being an input' in p.what) and 'coincide at run time' not in p.what]
        step = max(1, len(src) // per)
        for p in src[::step]:
            p.spec = None
            ps.append(p)
    return ps


OWNED = '''#ifndef GATLCHECK_OWNED
#define GATLCHECK_OWNED
#include <cmath>
struct Owned {      // a number that moving from leaves worthless
    double v = 0;
    Owned() = default;
    Owned(double x) : v(x) {}
    Owned(Owned const &o) : v(o.v) {}
    Owned(Owned &&o) : v(o.v) { o.v = -777; }
    Owned &operator=(Owned const &o) { v = o.v; return *this; }
    Owned &operator=(Owned &&o) { double const x = o.v; o.v = -777; v = x; return *this; }
};
inline Owned operator+(Owned const &a, Owned const &b) { return Owned(a.v + b.v); }
inline Owned operator-(Owned const &a, Owned const &b) { return Owned(a.v - b.v); }
inline Owned operator*(Owned const &a, Owned const &b) { return Owned(a.v * b.v); }
inline Owned operator/(Owned const &a, Owned const &b) { return Owned(a.v / b.v); }
inline Owned operator-(Owned const &a) { return Owned(-a.v); }
inline bool operator<(Owned const &a, Owned const &b) { return a.v < b.v; }
inline double worth(Owned const &a) { return a.v; }
inline double worth(double a) { return a; }
#endif
'''


def twice(v, sz):
    w = dict(v)
    w.update({b + sz: x for b, x in v.items()})
    return w


def whole(mv, n):
    r = ('ret', {i: mv.get(i, ZERO) for i in range(n)})
    return lambda dec: r


# ---------------------------------------------------------------- C28
def c28(tier):
    ids = Ids('c28')
    ps = []

    def w(ns, body, kind, what=None):
        head = 'gatl/%s.hpp' % ns
        ps.append(Probe(ids(), head, '#include <sstream>\nusing namespace %s;\nvoid gatlcheck_f(double const *a, double const *b, double *out) { %s }' % (ns, body), None, weight=1.2, kind=kind, what='%s: %s' % (ns, what or body)))

    def no(ns, body):
        w(ns, body, 'rejected')

    def yes(ns, body):
        w(ns, body, 'compiles')
    fns = ['cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'log', 'cbrt', 'sqrt', 'abs']
    bad = ['e1', 'a[0] * e1', 'a[0] + a[1] * e1', 'I', 'c<2> + e1']
    for i, f in enumerate(fns):
        for j, x in enumerate(bad):
            if tier != 'quick' or (i + j) % 2 == 0:
                no('ga3e', 'auto r = %s(%s);' % (f, x))
        no('ga3e', 'index_t k = 1; auto r = %s(e(k));' % f)
        yes('ga3e', 'auto r = %s(scalar(a[0]));' % f)
    for x in bad[:4]:
        no('ga3e', 'auto r = pow(%s, 2);' % x)
        no('ga3e', 'auto r = pow(a[0], %s);' % x)
        no('ga3e', 'auto r = pow(c<2>, %s);' % x)
    yes('ga3e', 'auto r = pow(scalar(a[0]), c<2>);')
    # basis vectors and coordinates
    for x in ('c<0>', 'c<-1>', 'c<-64>', 'c<0> * c<3>', 'c<1> - c<1>', 'e1', 'a[0] * e2'):
        no('ga3e', 'auto r = e(%s);' % x)
    yes('ga3e', 'auto r = e(c<1>);')
    yes('ga3e', 'auto r = e(c<63>);')
    for ns in NSS:
        m = MODELS[ns]
        for f, d in [('vector', m.n), ('euclidean_vector', m.d)] + ([('point', m.d)] if m.kind in 'hmc' else []):
            for d2 in (d - 1, d + 1):
                if d2 < 1 or tier == 'quick' and m.n > 3 and d2 < d:
                    continue
                no(ns, 'auto r = %s(%s);' % (f, ', '.join('a[%d]' % i for i in range(d2))))
            no(ns, 'auto r = %s(%s);' % (f, ', '.join(['e1'] + ['a[%d]' % i for i in range(d - 1)])))
            no(ns, 'auto r = %s(%s);' % (f, ', '.join(['a[%d]' % i for i in range(d - 1)] + ['a[1] * e1'])))
            yes(ns, 'auto r = %s(%s);' % (f, ', '.join('a[%d]' % i for i in range(d))))
            if d > 1:
                no(ns, 'auto r = %s(space, %s);' % (f, ', '.join('a[%d]' % i for i in range(d - 1))))
    # copies
    for src, t in (('a[0] * e1', 'b[0] * e2'), ('a[0] * e1 + a[1] * e2', 'b[0] * e2'), ('c<2> * e1', 'b[0] * e2'), ('c<2> * e1', 'c<3> * e1'), ('a[0] * e1', 'c<3> * e1'), ('1', 'b[0] * e1'), ('a[0]', 'b[0] * (e1 ^ e2)'),
                   ('a[0] + a[1] * e1', 'scalar(b[0])'), ('full_vector_t<double, 3>()', 'full_vector_t<double, 2>()'), ('full_multivector_t<double, 3>()', 'full_kvector_t<double, 3, 2>()'), ('e1', 'e2'), ('a[0] * I', 'b[0] + b[1] * e1')):
        no('ga3e', 'auto t = %s; trivial_copy(%s, t);' % (t, src))
    for src, t in (('c<2> * e1', 'b[0] * e2'), ('c<2> * e1', 'c<3> * e1'), ('a[0] * e1', 'c<3> * e1'), ('c<1>', 'full_vector_t<double, 3>()'), ('c<1> + a[0] * e1', 'full_vector_t<double, 3>()'), ('e1', 'scalar(b[0])'), ('c<2> * I + a[0]', 'b[0] + b[1] * e1')):
        no('ga3e', 'auto t = %s; checked_trivial_copy(%s, t);' % (t, src))
        no('ga3e', 'auto t = %s; t = %s;' % (t, src))
    for src, t in (('a[0] * e1', 'b[0] * e1'), ('a[0] * e1', 'b[0] * e1 + b[1] * e2'), ('c<2> * e1', 'b[0] * e1'), ('1.0', 'scalar(b[0])')):
        yes('ga3e', 'auto t = %s; trivial_copy(%s, t);' % (t, src))
    for src, t in (('a[0] * e1', 'b[0] * e2'), ('a[0] + c<2> * e1', 'b[0] * e1'), ('a[0]', 'b[0] * e2')):
        yes('ga3e', 'auto t = %s; checked_trivial_copy(%s, t);' % (t, src))
    for t in ('auto const t = b[0] * e1; trivial_copy(a[0] * e1, t);', 'auto const t = b[0] * e1; checked_trivial_copy(a[0] * e1, t);', 'auto const t = b[0] * e1; t = a[0] * e1;', 'trivial_copy(a[0] * e1, b[0] * e1);', 'double t = 0; trivial_copy(e1, t);',
              'double t = 0; checked_trivial_copy(scalar(a[0]), t);'):
        no('ga3e', t)
    # conversions to native numbers
    for ns in ('ga3e', 'ga2c', 'ga2p'):
        for x in ('e1', 'a[0] * e1', 'a[0] + a[1] * e1', 'I', 'a[0] * I', 'full_vector_t<double, %d>()' % MODELS[ns].n):
            no(ns, 'double d = %s;' % x)
        no(ns, 'auto d = double(a[0] * e1);')
        no(ns, 'int d = e1;')
        no(ns, 'index_t k = 1; double d = e(k);')
        yes(ns, 'double d = scalar(a[0]);')
        yes(ns, 'double d = e1 | (a[0] * e1);')
        no(ns, 'full_vector_t<double, %d> v = 2.0;' % MODELS[ns].n if MODELS[ns].n > 1 else 'double d = e1;')
    # lazy arguments are not values
    lz = 'auto p = a[0] * e1; auto [lazy, x] = make_lazy_context_tuple(p); '
    for t in ('for_each_component(x, [&](bitset_t, auto const &, entry_source_t, entry_source_t, bool &) {});', 'for_each_basis_vector(x, [&](index_t, bool &) {});', 'double d = rnorm(x);', 'double d = x | x;', 'auto l2 = lazy; l2 = lazy;',
              'auto y = lazy.template argument<1>();', 'auto y = lazy.eval(2.0);', 'double d = x;', 'bool q = x;', 'auto t = b[0] * e1; trivial_copy(x, t);'):
        no('ga3e', lz + t)
    yes('ga3e', lz + 'double d = lazy.eval(rnorm(x));')
    yes('ga3e', lz + 'auto y = lazy.template argument<0>();')
    for t in ('auto l = make_lazy_context(space);', 'auto l = make_lazy_context("x");', 'auto l = make_lazy_context(nullptr);'):
        no('ga3e', t)
    for t in ('for_each_basis_vector(a[0] * e1 + a[1] * e2, [&](index_t, bool &) {});', 'for_each_basis_vector(full_vector_t<double, 3>(), [&](index_t, bool &) {});'):
        no('ga3e', t)
    yes('ga3e', 'for_each_basis_vector(a[0] * (e1 ^ e2), [&](index_t, bool &) {});')
    # a number cannot hold a lazily evaluated scalar
    lz = 'auto p = scalar(a[0]); auto [lazy, x] = make_lazy_context_tuple(p); '
    for t in ('std::common_type_t<double, std::decay_t<decltype(x)> > d = 0;', 'std::common_type_t<std::decay_t<decltype(x)>, double> d = 0;', 'std::common_type_t<std::decay_t<decltype(x)>, std::decay_t<decltype(p)> > d = 0;', 'for_each_component(x, [&](bitset_t, auto const &, entry_source_t, entry_source_t, bool &) {});'):
        no('ga3e', lz + t)
    yes('ga3e', 'auto p = scalar(a[0]); std::common_type_t<double, std::decay_t<decltype(p)> > d = 0; std::common_type_t<std::decay_t<decltype(p)>, double> d2 = 0;')
    for t in ('for_each_component(x, [&](bitset_t, auto const &, entry_source_t, entry_source_t, bool &) {});', 'for_each_basis_vector(x, [&](index_t, bool &) {});'):
        no('ga3e', 'index_t k = 1; auto p = a[0] * e(k); auto [lazy, x] = make_lazy_context_tuple(p); ' + t)
    no('ga3e', 'auto p = a[0] * e1 + a[1] * e2; auto [lazy, x] = make_lazy_context_tuple(p); for_each_component(x, [&](bitset_t, auto const &, entry_source_t, entry_source_t, bool &) {});')
    # the kind of an argument does not depend on who holds it
    for decl in ('auto v = a[0] * e1;', 'auto const v = a[0] * e1;', 'auto v = c<2> * e1;', 'auto v = a[0] + a[1] * e1;', 'auto v = e1;', 'auto v = full_vector_t<double, 3>();', 'index_t k = 1; auto v = a[0] * e(k);', 'auto v = a[0] * I;'):
        for t in ('scalar(v)', 'scalar(std::move(v))', 'vector(a[0], a[1], v)', 'euclidean_vector(v, a[0], a[1])', 'e(v)', 'cos(v)', 'pow(v, 2)'):
            no('ga3e', '%s auto r = %s;' % (decl, t))
    yes('ga3e', 'auto v = scalar(a[0]); auto r = scalar(v); static_assert(std::is_same_v<decltype(r), decltype(v)>); auto q = vector(v, a[0], v);')
    # blades whose grade does not exist in the space
    for ns, sp in (('ga3e', 'signed_metric_space<2, 0, 0>'), ('ga2c', 'conformal_metric_space<1>'), ('ga2m', 'minkowski_metric_space<1>'), ('ga4e', 'euclidean_metric_space<3>')):
        for f in ('gp', 'lcont', 'rcont', 'dot', 'hip', 'sp', 'op', 'rp', 'dp'):
            no(ns, '%s m; auto r = %s(I, e1, m);' % (sp, f))
            if f in ('gp', 'op'):
                no(ns, '%s m; auto r = %s(e1, a[0] * I, m);' % (sp, f))
                no(ns, '%s m; auto r = %s(a[0] * I + a[1] * e1, a[2] * e2, m);' % (sp, f))
                yes(ns, '%s m; auto r = %s(a[0] * e1 ^ e2, a[2] * e2, m);' % (sp, f))
        for f in ('rnorm_sqr', 'rnorm', 'inv'):
            no(ns, '%s m; auto r = %s(a[0] * I, m);' % (sp, f))
    for t in ('gp(I, I, m)', 'op(e(k) ^ e(k) ^ e(k), e1, m)', 'gp(e(k) ^ e(k) ^ e(k), e1, m)'):
        no('ga3e', 'index_t k = 1; signed_metric_space<2, 0, 0> m; auto r = %s;' % t)
    # a blade defined at runtime is only held by one that admits its grades
    for t in ('auto t = b[0] * e(k); trivial_copy(a[0] * (e(k) ^ e(k)), t);', 'auto t = b[0] * e(k); trivial_copy(e(k) ^ e(k), t);', 'auto t = e(k); trivial_copy(e(k) ^ e(k), t);', 'auto t = e(k) ^ e(k); trivial_copy(e(k), t);', 'auto t = full_vector_t<double, 3>(); trivial_copy(e(k), t);'):
        no('ga3e', 'index_t k = 1; ' + t)
    yes('ga3e', 'index_t k = 1; auto t = b[0] * e(k); trivial_copy(a[0] * e(k), t); trivial_copy(e(k), t);')
    # metric spaces and other arguments
    for t in ('signed_metric_space<60, 10, 0> m;', 'signed_metric_space<60, 4, 0> m;', 'signed_metric_space<30, 30, 30> m;', 'signed_metric_space<0, 0, 64> m;'):
        no('ga3e', t)
    yes('ga3e', 'signed_metric_space<60, 3, 0> m;')
    for f in ('gp', 'op', 'lcont', 'rcont', 'dot', 'hip', 'sp', 'rp', 'cp', 'igp'):
        no('ga3e', 'auto r = %s(e1, e2, e3);' % f)
        no('ga3e', 'auto r = %s(e1, e2, 3);' % f)
        if tier != 'quick' or f in ('gp', 'op', 'dot'):
            no('ga3e', 'auto r = %s(e1, space);' % f)
            no('ga3e', 'auto r = %s(e1, e2, space, space);' % f)
            no('ga3e', 'auto r = %s(e1);' % f)
    for t in ('e1 * "x"', 'e1 + "x"', 'e1 - nullptr', 'e1 ^ nullptr', 'e1 * space', 'space + e1', 'e1 | "x"', '!e1', 'e1 == e2', 'e1 % e2', 'dual(e1, 1.0)', 'dual(e1, e1, e1)', 'undual(e1, 1.0)', 'rnorm(e1, e2)', 'rnorm_sqr(e1, 1.0)', 'inv(e1, e2)', 'unit(e1, 2)',
              'is_unit(e1, e2)', 'is_null(e1, e2)', 'is_zero(e1, e2)', 'is_zero(2.0)', 'grade(a[0] + a[1] * e1, e2)', 'largest_grade(a[0] + a[1] * e1, e2)', 'take_grade(a[0] + a[1] * e1, e1)', 'take_largest_grade(a[0] + a[1] * e1, e2)', 'reverse(e1, space)', 'take_grade(e1)',
              'apply_rotor(e1)', 'apply_even_versor(e1 ^ e2, e3, e1)', 'project(1.0, 2.0)', 'reject(1.0, 2.0)', 'translate(e1, e2)', 'exp(e1 ^ e2, e3)', 'pseudoscalar(e1)', 'pseudoscalar(3)'):
        no('ga3e', 'auto r = %s;' % t)
    no('ga3h', 'auto r = translate(1.0, 2.0);')
    yes('ga3h', 'auto r = translate(a[0] * e1, e1 ^ ep);')
    # division by what is known to be zero
    for ns, t in [('ga3e', 'inv(c<0>)'), ('ga3e', 'e1 / c<0>'), ('ga3e', 'a[0] / c<0>'), ('ga3e', 'c<1> / c<0>'), ('ga3e', 'c<0> / c<0>'), ('ga3e', '(a[0] * e1) / (c<1> - c<1>)'), ('ga3e', 'pow(c<0>, c<-1>)'), ('ga2c', 'inv(no)'), ('ga2c', 'inv(ni)'), ('ga2c', 'unit(ni)'),
                  ('ga2c', 'e1 / no'), ('ga2p', 'inv(e0)'), ('ga2p', 'unit(e0)'), ('ga2p', 'e1 / e0'), ('ga2p', 'dual(e1)'), ('ga2p', 'inv(I)'), ('ga2p', 'igp(e1, a[0] * e0)'), ('ga2m', 'inv(ep + em)'), ('ga2m', 'inv(c<3> * (em - ep))')]:
        no(ns, 'auto r = %s;' % t)
    for ns, t in [('ga2c', 'inv(no + ni)'), ('ga2p', 'inv(e1)'), ('ga2m', 'inv(ep)'), ('ga3e', 'e1 / c<2>')]:
        yes(ns, 'auto r = %s;' % t)
    # configuration
    for d in ('GA_MAX_BASIS_VECTOR_INDEX=0', 'GA_MAX_BASIS_VECTOR_INDEX=64', 'GA_MAX_BASIS_VECTOR_INDEX=-1', 'GA_MAX_BASIS_VECTOR_INDEX=2.5', 'GA_DEFAULT_FLT_TOLERANCE=-1.0f', 'GA_DEFAULT_DBL_TOLERANCE=-1e-8'):
        ps.append(Probe(ids(), (), '#include <gatl/ga2e.hpp>', None, weight=1, kind='rejected', what='-D%s' % d, flags=('-D' + d,)))
    ps.append(Probe(ids(), (), '#include <gatl/ga5e.hpp>', None, weight=1, kind='rejected', what='ga5e.hpp with -DGA_MAX_BASIS_VECTOR_INDEX=4', flags=('-DGA_MAX_BASIS_VECTOR_INDEX=4',)))
    return ps


# ---------------------------------------------------------------- C29
def c29(tier):
    ids = Ids('c29')
    ps = []
    q = 0
    orders = (tuple(HEADERS), tuple(reversed(HEADERS)))
    for ns in NSS:
        m = MODELS[ns]
        n, g = m.n, m.alg
        n_vec = 'fill(ga::full_vector_t<double, %d>(), %s)'
        kv = lambda nm, k: 'fill(ga::full_kvector_t<double, %d, %d>(), %s)' % (n, k, nm)
        others = [o for o in NSS if MODELS[o].n == n and o != ns]
        u, v = kvec('a', n, 1), kvec('b', n, 1)
        k2 = min(2, n)
        w = kvec('b', n, k2)
        bins = [('gp', 'gp'), ('op', 'op'), ('lcont', 'lcont'), ('rcont', 'rcont'), ('dot', 'dot'), ('hip', 'hip'), ('sp', 'sp'), ('rp', 'rp'), ('cp', 'cp')]
        pre2 = 'auto x = %s; auto y = %s; ' % (kv('a', 1), kv('b', k2))
        pre1 = 'auto x = %s; ' % kv('a', 1)
        metrics = [(ns, '')] + [(ns, ', %s::space' % ns)] + [(o, ', %s::space' % o) for o in others]

        def put(body, spec, what, wt=0.35):
            nonlocal q
            q += 1
            ps.append(Probe(ids(), orders[q % 2], body, spec, ns=None, weight=wt, what='%s among all algebras: %s' % (ns, what)))
        for f, r in bins:
            for o, arg in metrics:
                go = MODELS[o].alg
                if tier == 'quick' and arg and (q + len(f)) % (2 if n < 4 else 4):
                    q += 1
                    continue
                put(pre2 + (dump(n, '%s::%s(x, y)' % (ns, f)) if not arg else 'using namespace %s; ' % ns + dump(n, '%s(x, y%s)' % (f, arg))), ret(getattr(go, r)(u, w)), '%s(x, y%s)' % (f, arg), 0.35 if n < 5 else .6)
        for o, r in (('*', 'gp'), ('^', 'op'), ('<', 'lcont'), ('>', 'rcont'), ('|', 'dot')):
            put('using namespace %s; %s%s' % (ns, pre2, dump(n, 'x %s y' % o)), ret(getattr(g, r)(u, w)), 'x %s y' % o)
            # native and constant operands choose other overloads
            put('using namespace %s; %s%s' % (ns, pre1, dump(n, '(x + b[0]) %s (x - c<2>)' % o)), ret(getattr(g, r)(add(u, {0: B(0)}), sub(u, scalar(2)))), '(x + native) %s (x - constant)' % o)
        # operands of mixed grades, with a scalar part, which tell the inner products apart
        mx, my = {0: A(0), 1: A(1)}, {0: B(0), **({3: B(3)} if n > 1 else {}), (1 << n) - 1: B((1 << n) - 1)}
        prem = 'auto x = a[0] + a[1] * %s::e(ga::c<1>); auto y = b[0] + b[%d] * %s::I%s; ' % (ns, (1 << n) - 1, ns, ' + b[3] * ga::op(%s::e(ga::c<1>), %s::e(ga::c<2>), %s::space)' % (ns, ns, ns) if n > 2 else '')
        for f, r in bins:
            if tier == 'quick' and n > 4:
                continue
            for xy, l_, r_ in (('x, y', mx, my), ('y, x', my, mx)):
                put('using namespace ga; ' + prem + dump(n, '%s::%s(%s)' % (ns, f, xy)), ret(getattr(g, r)(l_, r_)), '%s(%s) of operands with a scalar part' % (f, xy))
        for o, arg in metrics:
            mo = MODELS[o]
            go = mo.alg
            if tier == 'quick' and arg and n > 2 and (q * 40503 >> 3) % (2 if n < 4 else 4):
                q += 1
                continue
            Q = ns + '::' if not arg else ''
            U = 'using namespace %s; ' % ns if arg else ''
            qf = go.rnorm_sqr(u)
            put(U + pre1 + dump(n, '%srnorm_sqr(x%s)' % (Q, arg)), ret(sc(qf)), 'rnorm_sqr(x%s)' % arg)
            put(U + pre1 + dump(n, '%srnorm(x%s)' % (Q, arg)), when_nonneg(qf, sc(sqrt(qf))), 'rnorm(x%s)' % arg)
            x1 = {1: A(1)}
            q1 = go.rnorm_sqr(x1)
            one = 'auto x = ga::scalar(a[1]) * %s::e1; ' % ns
            q3 = go.rnorm_sqr({1: A(1), (1 << (n - 1)): A(2)}) if n > 1 else q1
            v3 = {1: A(1), (1 << (n - 1)): A(2)} if n > 1 else x1
            pre3 = 'using namespace %s; auto x = a[1] * e(c<1>)%s; ' % (ns, ' + a[2] * e(c<%d>)' % n if n > 1 else '')
            if q3.t and not q3.is_const():
                put(pre3 + dump(n, '%sinv(x%s)' % (Q, arg)), when_nonzero(q3, lambda go=go, v3=v3: go.inv(v3)), 'inv(x%s)' % arg)
                put(pre3 + dump(n, '%sunit(x%s)' % (Q, arg)), when_nonzero(q3, lambda go=go, v3=v3: go.unit(v3)), 'unit(x%s)' % arg)
                y3 = {1: B(1)}
                put(pre3 + 'auto y = b[1] * e(c<1>); ' + dump(n, '%sigp(y, x%s)' % (Q, arg)), when_nonzero(q3, lambda go=go, v3=v3: go.gp({1: B(1)}, go.inv(v3))), 'igp(y, x%s)' % arg)
                put(pre3 + 'auto y = b[1] * e(c<1>); ' + dump(n, '%sapply_odd_versor(x, y%s)' % (Q, arg)), when_nonzero(q3, lambda go=go, v3=v3: go.gp(go.gp(v3, involute({1: B(1)})), go.inv(v3))), 'apply_odd_versor(x, y%s)' % arg)
            if n > 1:
                R = {0: A(0), 3: A(3)}
                pre4 = 'using namespace %s; auto x = a[0] + a[3] * (e(c<1>) ^ e(c<2>)); auto y = b[1] * e(c<1>)%s; ' % (ns, ' + b[4] * e(c<3>)' if n > 2 else '')
                yv = {1: B(1), 4: B(4)} if n > 2 else {1: B(1)}
                put(pre4 + dump(n, '%sapply_rotor(x, y%s)' % (Q, arg)), ret(go.gp(go.gp(R, yv), reverse(R))), 'apply_rotor(x, y%s)' % arg)
                qr = go.rnorm_sqr(R)
                put(pre4 + dump(n, '%sapply_even_versor(x, y%s)' % (Q, arg)), when_nonzero(qr, lambda go=go, R=R, yv=yv: go.gp(go.gp(R, yv), go.inv(R))), 'apply_even_versor(x, y%s)' % arg)
            if mo.kind != 'p':
                if arg:
                    put(U + pre1 + dump(n, 'dual(x, %s::I%s)' % (ns, arg)), ret(go.dual(u)), 'dual(x, I%s)' % arg)
                    put(U + pre1 + dump(n, 'undual(x, %s::I%s)' % (ns, arg)), ret(go.undual(u)), 'undual(x, I%s)' % arg)
                else:
                    for t in ('dual(x)', 'dual(x, %s::I)' % ns):
                        put(pre1 + dump(n, '%s::%s' % (ns, t)), ret(go.dual(u)), t)
                    for t in ('undual(x)', 'undual(x, %s::I)' % ns):
                        put(pre1 + dump(n, '%s::%s' % (ns, t)), ret(go.undual(u)), t)
            else:
                for t in ['undual(x, %s::I%s)' % (ns, arg)] + (['undual(x)'] if not arg else []):
                    put(U + pre1 + dump(n, '%s%s' % (Q, t)), ret(go.undual(u)), t)
            # tests and the exponential
            from .maths import within
            eps = V.const(1e-8)

            def unit_spec(dec, q1=q1):
                return ('ret', {0: ONE if within(dec, vabs(q1) - ONE, eps) else ZERO})

            def null_spec(dec, q1=q1):
                return ('ret', {0: ONE if within(dec, q1, eps) else ZERO})
            xe = {1 << (n - 1): A(1)}
            qe = go.rnorm_sqr(xe)
            pe = 'using namespace %s; auto x = a[1] * e(c<%d>); ' % (ns, n)
            put(pe + 'out[0] = %sis_null(x%s);' % (Q, arg), (lambda dec, qe=qe: ('ret', {0: ONE if within(dec, qe, eps) else ZERO})), 'is_null(x%s)' % arg)
            put(pe + 'out[0] = %sis_unit(x%s);' % (Q, arg), (lambda dec, qe=qe: ('ret', {0: ONE if within(dec, vabs(qe) - ONE, eps) else ZERO})), 'is_unit(x%s)' % arg)
        # constructors
        cs = ', '.join('a[%d]' % (1 << i) for i in range(n))
        for f, d in [('vector', n), ('euclidean_vector', m.d)]:
            cs = ', '.join('a[%d]' % (1 << i) for i in range(d))
            wv = {1 << i: A(1 << i) for i in range(d)}
            put(dump(n, '%s::%s(%s)' % (ns, f, cs)), ret(wv), '%s(coords)' % f)
            if f == 'vector':
                put(dump(n, 'ga::vector(%s::space, %s)' % (ns, cs)), ret(wv), 'vector(space, coords)')
        for t in (ns + '::pseudoscalar()', 'ga::pseudoscalar(%s::space)' % ns, ns + '::I'):
            put(dump(n, t), ret({(1 << n) - 1: ONE}), t)
        # two algebras in one function
        for o in NSS:
            q += 1
            if o == ns or tier == 'quick' and (q * 40503 % 65536) > 65536 * .25:
                continue
            mo = MODELS[o]
            if n + mo.n > 8:
                continue
            body = '{ using namespace %s; auto x = %s; auto y = x * %s; dump<%d>(y, out); } { using namespace %s; auto x = %s; auto y = x | (x ^ %s); dump<%d>(y, out + %d); }' % (
                ns, kv('a', 1), m.names[-1], n, o, 'fill(ga::full_vector_t<double, %d>(), a)' % mo.n, mo.names[-1], mo.n, 1 << n)
            go = mo.alg
            en = lambda mm: {1 << (mm.n - 1): ONE}
            uo = kvec('a', mo.n, 1)
            wv = {b: x for b, x in g.gp(u, en(m)).items()}
            wv.update({b + (1 << n): x for b, x in go.dot(uo, go.op(uo, en(mo))).items()})
            put(body, whole(wv, (1 << n) + (1 << mo.n)), 'products in %s and then in %s' % (ns, o), 0.5)
    return ps


# ---------------------------------------------------------------- C30
def c30(tier):
    ids = Ids('c30')
    ps = []
    inc = lambda hs: ''.join('#include <%s>\n' % h for h in hs)
    use = lambda ns: 'namespace gatlcheck_%s { static void f(double const *a, double *out) { using namespace %s; auto x = a[0] * e1 + a[1] * %s; auto y = x * x; ga::for_each_component(y, [&](ga::bitset_t b, auto const &v, ga::entry_source_t, ga::entry_source_t, bool &) { out[b] = v; }); } }\n' % (ns, ns, MODELS[ns].names[-1])

    def w(body, what, kind='compiles', flags=(), wt=1.5):
        ps.append(Probe(ids(), (), body, None, weight=wt, kind=kind, what=what, flags=flags))
    for i, ns in enumerate(NSS):
        h = HEADERS[i]
        w(inc([h]) + use(ns), '%s alone' % h)
        w(inc([h, h, 'gatl/ga.hpp', h]) + use(ns), '%s twice' % h)
        w(inc([h]) + use(ns) + 'void gatlcheck_u(double const *a, double *out) { gatlcheck_%s::f(a, out); }' % ns, 'symbols defined by including %s' % h, kind='symbols')
        o = HEADERS[(i * 7 + 5) % len(HEADERS)]
        on = NSS[(i * 7 + 5) % len(HEADERS)]
        if on != ns:
            w(inc([h, o]) + use(ns) + use(on), '%s then %s' % (h, o), wt=2)
            w(inc([o, h]) + use(ns) + use(on), '%s then %s' % (o, h), wt=2)
    if tier != 'quick':
        for i in range(len(NSS)):
            for j in range(len(NSS)):
                if i != j:
                    w(inc([HEADERS[i], HEADERS[j]]) + use(NSS[i]) + use(NSS[j]), '%s then %s, every pair' % (HEADERS[i], HEADERS[j]), wt=2)
    w(inc(['gatl/ga.hpp']) + 'auto gatlcheck_x() { return ga::e(ga::c<1>); }', 'gatl/ga.hpp alone')
    w(inc(['gatl/ga.hpp', 'gatl/ga.hpp']), 'gatl/ga.hpp twice')
    w(inc(['gatl/ga.hpp', 'gatl/ga/model/general.hpp']) + 'ga::constant_general_metric_space_t<1, 0, 0, 1> gatlcheck_m;', 'gatl/ga.hpp and general.hpp')
    for mod in ('conformal', 'euclidean', 'homogeneous', 'minkowski', 'plane_based', 'general'):
        w(inc(['gatl/ga.hpp', 'gatl/ga/model/%s.hpp' % mod]), 'gatl/ga.hpp and ga/model/%s.hpp' % mod)
        w(inc(['gatl/ga.hpp', 'gatl/ga/model/%s.hpp' % mod, 'gatl/ga/model/%s.hpp' % mod] + ['gatl/ga3c.hpp']), 'gatl/ga.hpp and ga/model/%s.hpp twice' % mod)
        w(inc(['gatl/ga.hpp', 'gatl/ga/model/%s.hpp' % mod]), 'symbols defined by ga/model/%s.hpp' % mod, kind='symbols')
    w(inc(HEADERS) + ''.join(use(ns) for ns in NSS), 'every header', wt=5)
    w(inc(reversed(HEADERS)) + ''.join(use(ns) for ns in NSS), 'every header, reversed', wt=5)
    w(inc(HEADERS) + ''.join(use(ns) for ns in NSS), 'symbols defined by every header', kind='symbols', wt=6)
    # every documented operation instantiated and emitted: nothing but weak or local definitions
    for ns in ('ga3e', 'ga2h', 'ga2p', 'ga2m', 'ga2c'):
        m = MODELS[ns]
        body = inc(['gatl/%s.hpp' % ns]) + '#include <sstream>\nusing namespace %s;\nvoid gatlcheck_u(double const *a, double *out) { auto x = a[0] * e1 + a[1] * e2; auto y = a[2] * (e1 ^ e2) + a[3];\n' % ns
        for f in ('gp', 'op', 'lcont', 'rcont', 'dot', 'hip', 'sp', 'rp', 'cp', 'igp', 'dp', 'apply_odd_versor', 'apply_even_versor'):
            body += '  (void)%s(y, x);\n' % f if f != 'igp' else '  (void)%s(x, y);\n' % f
        for f in ('rnorm', 'rnorm_sqr', 'inv', 'unit', 'reverse', 'involute', 'conjugate', 'grade', 'largest_grade', 'take_largest_grade', 'is_zero', 'is_null', 'is_unit') + (('dual', 'undual') if m.kind != 'p' else ()):
            body += '  (void)%s(x);\n' % f
        body += '  std::ostringstream s; s << x << y << c<3> << e(index_t(2)); auto l = make_lazy_context(x, y); (void)l; full_vector_t<double, %d> t; checked_trivial_copy(x, t); (void)vector(%s); (void)e(index_t(1)); (void)scalar(1.0); (void)sqrt(scalar(a[0])); out[0] = c<2>;\n}' % (m.n, ', '.join('a[%d]' % i for i in range(m.n)))
        w(body, 'symbols defined by using the operations of %s' % ns, kind='symbols', wt=4)
    # other standard modes and warnings as errors in the conventional set do not matter; the documented configuration does
    for mx in (2, 3, 5, 7, 8, 9, 15, 16, 31, 32, 62, 63):
        for ns in ('ga2e', 'ga3e', 'ga1c', 'ga2c', 'ga2m', 'ga3h', 'ga2p', 'ga5e'):
            m = MODELS[ns]
            if m.n > mx or tier == 'quick' and (mx * 5 + m.n * 3 + len(ps)) % 3 and not (ns == 'ga3e' or mx == m.n):
                continue
            conf(ps, ids, m, ('-DGA_MAX_BASIS_VECTOR_INDEX=%d' % mx,))
    for fl in (('-DGA_DEFAULT_FLOATING_POINT_TYPE=float',), ('-DGA_DEFAULT_FLOATING_POINT_TYPE=double',), ('-DGA_DEFAULT_INTEGRAL_TYPE=int',), ('-DGA_DEFAULT_INTEGRAL_TYPE=std::int32_t', '-DGA_MAX_BASIS_VECTOR_INDEX=15'), ('-DGA_DEFAULT_INTEGRAL_TYPE=long long',),
               ('-DGA_DEFAULT_INTEGRAL_TYPE=std::int16_t',), ('-DGA_DEFAULT_FLT_TOLERANCE=1e-4f', '-DGA_DEFAULT_DBL_TOLERANCE=1e-5')):
        for ns in ('ga3e', 'ga2c', 'ga2m'):
            conf(ps, ids, MODELS[ns], fl)
    return ps


def conf(ps, ids, m, flags):
    """A few operations under a configuration."""
    n, g = m.n, m.alg
    tag = ' with ' + ' '.join(flags)
    u = kvec('a', n, 1)
    v = kvec('b', n, 1)
    x = 'auto x = %s; auto y = %s; ' % (kvec_src(n, 'a', 1), kvec_src(n, 'b', 1))
    R = lambda body, spec, what, wt=.3: ps.append(P(ids, m, body, spec, what + tag, wt, flags=flags))
    R(x + dump(n, 'x * y'), ret(g.gp(u, v)), 'x * y')
    R(x + dump(n, '(x ^ y) * x'), ret(g.gp(g.op(u, v), u)), '(x ^ y) * x')
    R(x + dump(n, '~(x * y) + c<3>'), ret(add(reverse(g.gp(u, v)), scalar(3))), '~(x * y) + c<3>')
    if m.kind != 'p':
        R(x + dump(n, 'dual(x)'), ret(g.dual(u)), 'dual(x)')
        R(x + dump(n, 'rp(x, dual(y))'), ret(g.rp(u, g.dual(v))), 'rp(x, dual(y))')
    top = (1 << n) - 1
    R(dump(n, 'a[0] * pseudoscalar() + e%s' % '(c<%d>)' % n), ret({top: A(0), 1 << (n - 1): ONE} if n > 1 else {1: A(0) + ONE}), 'a * I + e(n)')
    R(x + dump(n, 'take_grade(x * y, 2)'), ret(take(g.gp(u, v), 2)), 'take_grade(x * y, 2)')
    if m.kind != 'c':
        for i in (1, n):
            R('index_t k = %d; ' % i + dump(n, '(b[0] * e(c<%d>)) ^ (a[0] * e(k))' % (n if i == 1 else 1)), ret(g.op({1 << ((n if i == 1 else 1) - 1): B(0)}, {1 << (i - 1): A(0)})), 'outer product with e(%d)' % i)
    q = g.rnorm_sqr({1: A(1)})
    R('auto x = a[1] * e(c<1>); ' + dump(n, 'rnorm_sqr(x)'), ret(sc(q)), 'rnorm_sqr')
    R('auto x = a[1] * e(c<1>); auto [lazy, l] = make_lazy_context_tuple(x); ' + dump(n, 'lazy.eval(l * l + l)'), ret(add(sc(q), {1: A(1)})), 'a lazy expression')
    R('full_multivector_t<double, %d> t; checked_trivial_copy(a[1] * e(c<1>), t); ' % n + dump(n, 't'), ret({1: A(1)}), 'a checked copy')
