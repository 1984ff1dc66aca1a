"""C11, C18, C19: canonical form of results, trivial copies, iteration."""
import itertools
import re
from ..common import *
from .algebra import P, sc, Fr
from .maths import within
from .models import blade_src
from .storage import forms

EPS = V.const(1e-8)


def canon(bits):
    return sorted(bits, key=lambda b: (grade(b), b))


# ---------------------------------------------------------------- C19
ITER = ('int n_ = 0; bool all_ = for_each_component(%s, [&](bitset_t const s_, auto const &v_, entry_source_t const bs_, entry_source_t const vs_, bool &keep_) '
        '{ out[4 * n_] = s_; out[4 * n_ + 1] = v_; out[4 * n_ + 2] = bs_ == COMPILE_TIME_DEFINED_ENTRY ? 0 : bs_ == STORED_RUNTIME_DEFINED_ENTRY ? 1 : 2; '
        'out[4 * n_ + 3] = vs_ == COMPILE_TIME_DEFINED_ENTRY ? 0 : vs_ == STORED_RUNTIME_DEFINED_ENTRY ? 1 : 2; ++n_; keep_ = %s; }); out[62] = n_; out[63] = all_;')


def calls(cs, stop=None):
    """cs: [(blade, coefficient, origin of the blade, origin of the coefficient)]; stop: how many calls until the function asks to stop."""
    done = stop is None or stop > len(cs)
    seen = cs if done else cs[:stop]
    out = {}
    for i, (b, v, bs, vs) in enumerate(seen):
        out[4 * i], out[4 * i + 1], out[4 * i + 2], out[4 * i + 3] = V.const(b), v, V.const(bs), V.const(vs)
    out[62] = V.const(len(seen))
    out[63] = V.const(1 if done else 0)
    return out


def c19(tier):
    ids = Ids('c19')
    ps = []

    def it(m, pre, e, cs, what=None):
        for stop in [None] + list(range(1, len(cs) + 1)):
            if len(cs) > 4 and stop not in (None, 1, 3, len(cs)):
                continue
            ps.append(P(ids, m, pre + ITER % (e, 'true' if stop is None else 'n_ < %d' % stop), ret(calls(cs, stop)),
                        'iteration over %s%s' % (what or e, '' if stop is None else ', asked to stop at call %d' % stop), 0.25))
    for ns in sorted(MODELS):
        m = MODELS[ns]
        n = m.n
        e1, en = m.names[0], m.names[-1]
        top = (1 << n) - 1
        c = lambda v: V.const(v)
        if n <= 3:
            it(m, 'auto x = %s; ' % full_src(n, 'a'), 'x', [(b, A(b), 0, 1) for b in canon(range(1 << n))], 'a general multivector')
        for k in range(n + 1):
            if n <= 4:
                it(m, 'auto x = %s; ' % kvec_src(n, 'a', k), 'x', [(b, A(b), 0, 1) for b in bits_of_grade(n, k)], 'a general %d-vector' % k)
        it(m, '', 'a[0] * %s' % en, [(1 << (n - 1), A(0), 0, 1)])
        it(m, '', 'scalar(a[0])', [(0, A(0), 0, 1)])
        it(m, '', 'c<3>', [(0, c(3), 0, 0)])
        it(m, '', 'c<0>', [(0, ZERO, 0, 0)])
        it(m, '', 'c<0> * %s' % e1, [(0, ZERO, 0, 0)])
        it(m, '', 'c<-2> * I', [(top, c(-2), 0, 0)])
        it(m, '', '%s / c<4>' % en, [(1 << (n - 1), c(Fr(1, 4)), 0, 0)])
        if n >= 2:
            e2 = m.names[1]
            it(m, '', 'a[3] * (%s ^ %s) + c<5> * %s + a[0]' % (e2, e1, e2), [(0, A(0), 0, 1), (2, c(5), 0, 0), (3, -A(3), 0, 1)])
            it(m, '', '%s - a[2] * %s + c<7>' % (e1, e2), [(0, c(7), 0, 0), (1, ONE, 0, 0), (2, -A(2), 0, 1)])
            it(m, '', '(%s ^ %s) / c<2> + c<2> * %s' % (e1, e2, e1), [(1, c(2), 0, 0), (3, c(Fr(1, 2)), 0, 0)])
        for i in range(1, n + 1):
            if n > 3 and i not in (1, n):
                continue
            it(m, 'index_t k = %d; ' % i, 'e(k)', [(1 << (i - 1), ONE, 1, 0)], 'e(%d) with a runtime index' % i)
            it(m, 'index_t k = %d; ' % i, 'a[0] * e(k)', [(1 << (i - 1), A(0), 1, 1)], 'a scaled e(%d) with a runtime index' % i)
            it(m, 'index_t k = %d; ' % i, 'c<3> * e(k)', [(1 << (i - 1), c(3), 1, 0)], 'c<3> * e(%d) with a runtime index' % i)
        # basis vectors of a blade
        bv = 'int n_ = 0; bool all_ = for_each_basis_vector(%s, [&](index_t const i_, bool &keep_) { out[n_] = i_; ++n_; keep_ = %s; }); out[62] = n_; out[63] = all_;'
        for b in range(1, 1 << n):
            if n > 3 and b * 7 % 5 and b != top:
                continue
            idx = [i + 1 for i in range(n) if b >> i & 1]
            for stop in (None, 1, 2, len(idx)):
                if stop is not None and stop > len(idx) or stop == 2 and len(idx) == 2:
                    continue
                seen = idx if stop is None else idx[:stop]
                want = {i: V.const(x) for i, x in enumerate(seen)}
                want[62] = V.const(len(seen))
                want[63] = V.const(1 if stop is None else 0)
                keep = 'true' if stop is None else 'n_ < %d' % stop
                tag = '' if stop is None else ', asked to stop at call %d' % stop
                fs = [('bitset_t(%d)' % b, 'a bitset'), (blade_src(b), 'a constant blade'), ('a[0] * (%s)' % blade_src(b), 'a scaled blade'), ('c<-3> * (%s)' % blade_src(b), 'a constant multiple of a blade')]
                if len(idx) == 1:
                    fs += [('e(index_t(%d))' % idx[0], 'a runtime blade'), ('a[0] * e(index_t(%d))' % idx[0], 'a scaled runtime blade')]
                if len(idx) == 2 and m.kind in 'ehpm' and n > 1:
                    fs += [('e(index_t(%d)) ^ e(index_t(%d))' % tuple(idx), 'an outer product of runtime blades'), ('e(index_t(%d)) ^ e(index_t(%d))' % (idx[1], idx[0]), 'an outer product of runtime blades, exchanged')]
                for s, w in fs:
                    ps.append(P(ids, m, bv % (s, keep), ret(want), 'basis vectors of %s: %s%s' % (w, s, tag), 0.2))
        ps.append(P(ids, m, bv % ('bitset_t(0)', 'true'), ret({62: ZERO, 63: ONE}), 'basis vectors of an empty bitset', 0.2))
        # a function that throws
        ps.append(P(ids, m, 'for_each_component(a[0] * %s, [&](bitset_t, auto const &, entry_source_t, entry_source_t, bool &) { throw std::runtime_error("stop"); }); out[0] = 0;' % e1,
                    lambda dec: ('throw', 'runtime_error'), 'iteration with a function that throws', 0.3, prelude='#include <stdexcept>'))
        ps.append(P(ids, m, 'for_each_basis_vector(a[0] * %s, [&](index_t, bool &) { throw std::runtime_error("stop"); }); out[0] = 0;' % e1,
                    lambda dec: ('throw', 'runtime_error'), 'iteration over basis vectors with a function that throws', 0.3, prelude='#include <stdexcept>'))
    return ps


# ---------------------------------------------------------------- C18
def shape_src(bits, v, consts=()):
    """The sum of stored components at bits (coefficients v[bit]) and constant ones."""
    ts = ['%s[%d] * (%s)' % (v, b, blade_src(b)) for b in bits] + ['c<%d> * (%s)' % (k, blade_src(b)) for b, k in consts]
    return ' + '.join(ts)


def c18(tier):
    ids = Ids('c18')
    ps = []

    def target(n, T, i):
        """A target of exactly this shape, holding other coefficients before."""
        gs = sorted({grade(b) for b in T})
        if i % 2 == 0 and sorted(T) == sorted(b for k in range(gs[0], gs[-1] + 1) for b in bits_of_grade(n, k)):
            return 'auto t = %s; ' % full_src(n, 'b', gs[0], gs[-1])
        return 'auto t = %s; ' % shape_src(T, 'b')

    def copy(m, src, S, T, consts=(), i=0, tols=None):
        n = m.n
        extra = [b for b in S if b not in T]
        st = target(n, T, i)
        val = {b: A(b) for b in S if b in T}
        val.update({b: V.const(k) for b, k in consts})
        val = {b: val.get(b, ZERO) for b in T}
        cs = [('checked_trivial_copy(x, t);', EPS), ('checked_trivial_copy(x, t, b[30]);', V.var('b30')), ('checked_trivial_copy(x, t, 0);', ZERO), ('checked_trivial_copy(x, t, 1e-3);', V.const(1e-3))]
        for call, tol in (cs if tols is None else [cs[j] for j in tols]):
            def spec(dec, tol=tol):
                if not tol.is_const() and dec(tol, '<'):
                    return ('any',)
                for b in extra:
                    if not within(dec, A(b), tol):
                        return ('throw', 'bad_checked_copy')
                return ('ret', val)
            ps.append(P(ids, m, 'auto x = %s; %s%s %s' % (src, st, call, dump(n, 't')), spec, '%s from %s to components %s' % (call[:-1], src, list(T)), 0.3))
        if not extra:
            ps.append(P(ids, m, 'auto x = %s; %strivial_copy(x, t); %s' % (src, st, dump(n, 't')), ret(val), 'trivial_copy from %s to components %s' % (src, list(T)), 0.3))
    shapes = lambda n, lo, hi: [c for r in range(lo, hi + 1) for c in itertools.combinations(range(1 << n), r)]
    m = MODELS['ga2e']
    i = 0
    for S in shapes(2, 1, 4):
        for T in shapes(2, 1, 4):
            i += 1
            copy(m, shape_src(S, 'a'), S, T, i=i, tols=None if i % 9 == 0 else [i % 4])
    for ns, every in (('ga3e', 97), ('ga2c', 211), ('ga2m', 211), ('ga2p', 307), ('ga3h', None)):
        m = MODELS[ns]
        k = 0
        if every is None:
            for gs in range(m.n + 1):
                copy(m, kvec_src(4, 'a', gs), bits_of_grade(4, gs), sorted(set(bits_of_grade(4, gs)) | {0, 15}), i=1, tols=[0])
                copy(m, full_src(4, 'a', 0, gs), [b for kk in range(gs + 1) for b in bits_of_grade(4, kk)], bits_of_grade(4, gs), i=1, tols=[1])
            continue
        S8 = shapes(3, 1, 3)
        for S in S8:
            for T in S8:
                k += 1
                if k % (every if tier == 'quick' else 11) == 0:
                    copy(m, shape_src(S, 'a'), S, T, i=k, tols=[k // every % 4])
        copy(m, full_src(3, 'a'), range(8), [0, 3, 5, 6], i=1)
        copy(m, full_src(3, 'a', 1, 1), [1, 2, 4], range(8), i=0)
        copy(m, kvec_src(3, 'a', 2), [3, 5, 6], [3], i=0)
        # constants in the source
        for src, S, cn in (('c<2> * e(c<1>) + a[2] * e(c<2>)', [2], [(1, 2)]), ('c<2> * e(c<1>)', [], [(1, 2)]), ('c<-1>', [], [(0, -1)]), ('a[0] + c<3> * (e(c<1>) ^ e(c<2>))', [0], [(3, 3)]), ('c<0>', [], [])):
            copy(m, src, S, sorted(set(S) | {b for b, _ in cn} | {1, 7}), consts=cn, i=1)
            copy(m, src, S, range(8), consts=cn, i=0, tols=[0])
        # native sources
        for src, v in (('a[0]', A(0)), ('2', V.const(2)), ('-1.5', V.const(Fr(-3, 2))), ('scalar(a[0])', A(0))):
            for T in ([0], [0, 1], [0, 3, 7]):
                for call in ('checked_trivial_copy(%s, t);' % src, 'checked_trivial_copy(%s, t, b[30]);' % src, 'trivial_copy(%s, t);' % src):
                    ps.append(P(ids, m, target(3, T, 1) + call + ' ' + dump(3, 't'), ret({0: v}), '%s to components %s' % (call[:-1], T), 0.3))
            T = [1, 6]
            for call, tol in (('checked_trivial_copy(%s, t);' % src, EPS), ('checked_trivial_copy(%s, t, b[30]);' % src, V.var('b30'))):
                def spec(dec, v=v, tol=tol):
                    if not tol.is_const() and dec(tol, '<'):
                        return ('any',)
                    return ('ret', {}) if within(dec, v, tol) else ('throw', 'bad_checked_copy')
                if src != '2':
                    ps.append(P(ids, m, target(3, T, 1) + call + ' ' + dump(3, 't'), spec, '%s to components %s' % (call[:-1], T), 0.3))
        # shapes that already agree, conversions by construction and assignment
        ps.append(P(ids, m, 'auto x = a[1] * e(c<1>) + c<2> * e(c<2>); auto t = b[1] * e(c<1>) + c<2> * e(c<2>); trivial_copy(x, t); ' + dump(3, 't'), ret({1: A(1), 2: V.const(2)}), 'trivial_copy with an equal fixed component', 0.3))
        ps.append(P(ids, m, 'auto x = a[1] * e(c<1>) + c<2> * e(c<2>); auto t = b[1] * e(c<1>) + c<2> * e(c<2>); checked_trivial_copy(x, t); ' + dump(3, 't'), ret({1: A(1), 2: V.const(2)}), 'checked_trivial_copy with an equal fixed component', 0.3))

        def conv(dec):
            for b in (0, 7):
                if not within(dec, A(b), EPS):
                    return ('throw', 'bad_checked_copy')
            return ('ret', {1: A(1), 2: ZERO, 4: A(4)})
        src = 'auto x = a[0] + a[1] * e(c<1>) + a[4] * e(c<3>) + a[7] * (e(c<1>) ^ e(c<2>) ^ e(c<3>)); '
        ps.append(P(ids, m, src + 'full_vector_t<double, 3> t = x; ' + dump(3, 't'), conv, 'construction of a vector from a multivector', 0.3))
        ps.append(P(ids, m, src + 'full_vector_t<double, 3> t(std::move(x)); ' + dump(3, 't'), conv, 'construction of a vector from an expiring multivector', 0.3))
        ps.append(P(ids, m, src + 'full_vector_t<double, 3> t; t = x; ' + dump(3, 't'), conv, 'assignment of a multivector to a vector', 0.3))
        ps.append(P(ids, m, src + 'full_multivector_t<double, 3> t = x; ' + dump(3, 't'), ret({b: A(b) for b in (0, 1, 4, 7)}), 'construction of a general multivector from a sparse one', 0.3))
        # runtime blades
        for j in (1, 2, 3):
            for call, tol in (('checked_trivial_copy(x, t);', EPS), ('trivial_copy(x, t);', None), ('checked_trivial_copy(x, t, b[30]);', None)):
                ps.append(P(ids, m, 'index_t k = %d, l = %d; auto x = a[0] * e(k); auto t = b[0] * e(l); %s %s' % (j, j % 3 + 1, call, dump(3, 't')), ret({1 << (j - 1): A(0)}), '%s between runtime blades, e(%d)' % (call[:-1], j), 0.3))
                ps.append(P(ids, m, 'index_t k = %d, l = %d; auto x = c<2> * e(k); auto t = b[0] * e(l); %s %s' % (j, j % 3 + 1, call, dump(3, 't')), ret({1 << (j - 1): V.const(2)}), '%s from a constant multiple of a runtime blade, e(%d)' % (call[:-1], j), 0.3))
                ps.append(P(ids, m, 'index_t k = %d, l = %d; auto x = e(k); auto t = e(l); %s %s' % (j, j % 3 + 1, call, dump(3, 't')), ret({1 << (j - 1): ONE}), '%s between unit runtime blades, e(%d)' % (call[:-1], j), 0.3))
        # multivectors with several components of which some have runtime blades: every component reaches its own place
        for j, (i1, i2, i3) in enumerate(((1, 2, 3), (3, 1, 2), (2, 3, 1))):
            bt = lambda *ii: sum(1 << (i - 1) for i in ii)
            sg = lambda p, q: ONE if p < q else V.const(-1)
            pre = 'index_t k = %d, l = %d, h = %d; ' % (i1, i2, i3)
            e1v, e2v, e12, e23 = {bt(i1): ONE}, {bt(i2): ONE}, {bt(i1, i2): sg(i1, i2)}, {bt(i2, i3): sg(i2, i3)}
            S = lambda v, x: {b: c * x for b, c in v.items()}
            J = lambda *vs: {b: c for v in vs for b, c in v.items()}
            cst = {bt(i2): ONE}
            con = 'e(c<%d>)' % i2
            for xs, xv, ts in (
                ('a[0] * e(k) + a[1] * %s' % con, J(S(e1v, A(0)), S(cst, A(1))), 'b[0] * e(h) + b[1] * %s' % con),
                ('a[0] * e(k) + a[1] * e(l)', J(S(e1v, A(0)), S(e2v, A(1))), 'b[0] * e(h) + b[1] * e(h)'),
                ('a[0] * e(k) + a[1] * (e(k) ^ e(l))', J(S(e1v, A(0)), S(e12, A(1))), 'b[0] * e(l) + b[1] * (e(l) ^ e(h))'),
                ('c<2> * e(k) + a[1] * (e(k) ^ e(l))', J(S(e1v, V.const(2)), S(e12, A(1))), 'b[0] * e(l) + b[1] * (e(l) ^ e(h))'),
                ('e(k) + a[1] * (e(l) ^ e(h))', J(e1v, S(e23, A(1))), 'e(h) + b[1] * (e(k) ^ e(l))'),
                ('c<3> * %s + a[1] * (e(k) ^ e(l))' % con, J(S(cst, V.const(3)), S(e12, A(1))), 'b[0] * %s + b[1] * (e(l) ^ e(h))' % con),
                ('a[1] * (e(k) ^ e(l))', S(e12, A(1)), 'b[0] * %s + b[1] * (e(l) ^ e(h))' % con),
                ('a[1] * %s' % con, S(cst, A(1)), 'b[0] * %s + b[1] * (e(l) ^ e(h))' % con),
                ('a[1] * e(k)', S(e1v, A(1)), 'b[0] * e(h) + b[1] * (e(k) ^ e(l))'),
                ('a[0] * e(k) + a[1] * (e(k) ^ e(l)) + a[2] * %s + a[3]' % con, J(S(e1v, A(0)), S(e12, A(1)), S(cst, A(2)), {0: A(3)}), 'b[0] * e(h) + b[1] * (e(h) ^ e(k)) + b[2] * %s + b[3]' % con),
                ('a[0] * e(k) + a[1] * (e(k) ^ e(l))', J(S(e1v, A(0)), S(e12, A(1))), 'scaled_basis_blade_t<double, 1>() + scaled_basis_blade_t<double, 2>()'),
            ):
                for call in ('trivial_copy(x, t);', 'checked_trivial_copy(x, t);', 'checked_trivial_copy(x, t, b[30]);', 't = x;'):
                    if tier == 'quick' and ns != 'ga3e' and (len(xs) + len(call) + j) % 4:
                        continue
                    if call == 't = x;' and xs.startswith(('c<', 'a[1]')):
                        continue
                    ps.append(P(ids, m, pre + 'auto x = %s; auto t = %s; %s %s' % (xs, ts, call, dump(3, 't')), ret(xv), '%s between sums with runtime blades, x = %s, t = %s, k = %d' % (call[:-1], xs, ts, i1), 0.3))
            for xs, xv, ts, keep, drop in (
                ('a[0] * e(k) + a[1] * (e(k) ^ e(l))', J(S(e1v, A(0)), S(e12, A(1))), 'b[0] * e(l)', e1v, A(1)),
                ('a[0] * e(k) + a[1] * (e(k) ^ e(l))', J(S(e1v, A(0)), S(e12, A(1))), 'b[0] * (e(l) ^ e(h))', e12, A(0)),
                ('a[0] * e(k) + a[1] * %s' % con, J(S(e1v, A(0)), S(cst, A(1))), 'b[0] * %s' % con, cst, A(0)),
                ('a[0] * e(k) + a[1] * %s' % con, J(S(e1v, A(0)), S(cst, A(1))), 'b[0] * e(h)', e1v, A(1)),
            ):
                for call, tol in (('checked_trivial_copy(x, t);', EPS), ('checked_trivial_copy(x, t, b[30]);', V.var('b30'))):
                    def spec(dec, tol=tol, drop=drop, xv=xv, keep=keep):
                        if not tol.is_const() and dec(tol, '<'):
                            return ('any',)
                        return ('ret', {b: xv[b] for b in keep}) if within(dec, drop, tol) else ('throw', 'bad_checked_copy')
                    ps.append(P(ids, m, pre + 'auto x = %s; auto t = %s; %s %s' % (xs, ts, call, dump(3, 't')), spec, '%s between sums with runtime blades, x = %s, t = %s, k = %d' % (call[:-1], xs, ts, i1), 0.3))
        # runtime blades copied to components that do not hold them, and targets with both kinds
        if ns in ('ga3e', 'ga2m', 'ga2c'):
            q = 0
            for d, v, gs, t in dyn_blades(3):
                (bb, co), = v.items()
                for T in ([0], [1, 2, 4], [0, 3], [7], list(range(8))):
                    q += 1
                    if d.startswith('unit') or (q * 40503 & 65535) > 65536 * (.2 if tier == 'quick' else 1):
                        continue
                    for call, tol in (('checked_trivial_copy(x, t);', EPS), ('checked_trivial_copy(x, t, b[30]);', V.var('b30'))):
                        def spec(dec, tol=tol, co=co):
                            if not tol.is_const() and dec(tol, '<'):
                                return ('any',)
                            return ('ret', {}) if within(dec, co, tol) else ('throw', 'bad_checked_copy')
                        ps.append(P(ids, m, d + target(3, T, 0) + call + ' ' + dump(3, 't'), spec, '%s of %s to components %s' % (call[:-1], t, T), 0.3))
            for l, h in ((0, 3), (0, 1), (1, 3), (2, 2)):
                for d, v, gs, t in dyn_blades(3, lo=l, hi=h):
                    q += 1
                    if (gs[0], gs[-1]) != (l, h) or (q * 40503 & 65535) > 65536 * (.5 if tier == 'quick' else 1):
                        continue
                    tt = 'scaled_basis_blade_t<double, %d, %d> t(make_sequential_storage(b[0]), make_sequential_storage(bitset_t(%d))); ' % (l, h, (1 << l) - 1)
                    for call in ('checked_trivial_copy(x, t);', 'trivial_copy(x, t);'):
                        ps.append(P(ids, m, d + tt + call + ' ' + dump(3, 't'), ret(v), '%s of %s to one of grade %d to %d' % (call[:-1], t, l, h), 0.3))
    return ps


# ---------------------------------------------------------------- C11
FORM = ('auto r = %s; int n_ = 0, up_ = 1, zero_ = 0, vals_ = 0, bits_ = 0; bitset_t last_ = 0; '
        'for_each_component(r, [&](bitset_t const s_, auto const &v_, entry_source_t const bs_, entry_source_t const vs_, bool &) '
        '{ if (bs_ == COMPILE_TIME_DEFINED_ENTRY) { if (n_ > 0 && !(__builtin_popcountll(last_) < __builtin_popcountll(s_) || (__builtin_popcountll(last_) == __builtin_popcountll(s_) && last_ < s_))) up_ = 0; last_ = s_; } else ++bits_; '
        'if (vs_ == COMPILE_TIME_DEFINED_ENTRY) { if (v_ == 0) ++zero_; } else ++vals_; out[s_] = 1; ++n_; }); '
        'out[60] = up_; out[61] = zero_; out[62] = vals_ == (int)(r.values().end() - r.values().begin()); out[63] = bits_ == (int)(r.bitsets().end() - r.bitsets().begin()); ')


def form_spec(comps, isconst=False):
    out = {b: ONE for b in comps} if comps else {0: ONE}
    out[60] = out[62] = out[63] = ONE
    out[61] = ZERO if comps else ONE
    return out


def c11(tier):
    ids = Ids('c11')
    ps = []
    from .lazy import MV1, MV2, c10_operands
    k = 0
    for ns, step in (('ga3e', 1), ('ga2m', 2), ('ga2c', 2), ('ga2p', 2), ('ga2h', 3), ('ga1e', 3), ('ga1c', 3), ('ga1m', 3), ('ga1p', 3), ('ga3h', 11), ('ga4e', 11), ('ga3p', 11)):
        m = MODELS[ns]
        n, g = m.n, m.alg
        L = [(s, v) for s, v in c10_operands(m, 'a')]
        R = [(s, v) for s, v in c10_operands(m, 'b')]
        clr = 'for (int i = 0; i < %d; i++) out[i] = 0; ' % (1 << n)
        for src, f in MV2[:11]:
            for i, (ls, lv) in enumerate(L):
                for j, (rs, rv) in enumerate(R):
                    k += 1
                    if (k * 40503 % 65536) * step > 65536 * (.06 if tier == 'quick' else .6) or len(lv) * len(rv) > 16:
                        continue
                    if re.search(r'(?<![\w<\[.])\d+ \*|/ \d', ls + ' ' + rs):
                        continue        # native numbers are runtime values that may cancel
                    if 'no' in (ls, rs) or 'ni' in ls + rs or 'sqrt' in ls + rs:
                        continue
                    e = src.format('(%s)' % ls, '(%s)' % rs)
                    w = f(g, lv, rv)
                    if src.startswith('cp('):
                        continue
                    ps.append(P(ids, m, clr + FORM % e, ret(form_spec([b for b in w if w[b].t])), 'form of ' + e, 0.3))

    # equal multivectors have equal types, whatever the order they are written in
    import random
    rnd = random.Random(7)

    def lit(ts):
        return ' + '.join(ts) if ts else 'c<0>'
    for ns in ('ga1e', 'ga2e', 'ga3e', 'ga2h', 'ga2p', 'ga2m', 'ga2c', 'ga3h', 'ga4e', 'ga3p'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        for _ in range(24 if tier == 'quick' else 240):
            def operand(cs):
                bs = rnd.sample(range(1 << n), rnd.choice([1, 2, 2, 3]) if n > 1 else 1)
                return {b: V.const(rnd.choice(cs)) for b in bs}
            x, y = operand([-3, -2, -1, 1, 2, 5]), operand([-3, -2, -1, 1, 2, 5])
            cl = lambda v: lit(['c<%d> * (%s)' % (c.const_value(), blade_src(b)) for b, c in v])
            sh = lambda d: rnd.sample(sorted(d.items()), len(d))
            src, f = rnd.choice(MV2[:10])
            if n == 1 and 'rp' in src:
                continue
            w = {b: c for b, c in f(g, x, y).items() if c.t}
            if any(c.const_value() != int(c.const_value()) for c in w.values()):
                continue
            e = src.format('(%s)' % cl(sh(x)), '(%s)' % cl(sh(y)))
            for k, ord_ in enumerate((sh(w), sorted(w.items()))):
                ps.append(P(ids, m, 'auto r = %s; auto s = %s; out[0] = std::is_same_v<decltype(r), decltype(s)>;' % (e, lit(['c<%d> * (%s)' % (c.const_value(), blade_src(b)) for b, c in ord_])),
                            ret({0: ONE}), 'type of %s, written in order %d' % (e, k), 0.3))
        for _ in range(10 if tier == 'quick' else 100):
            bs = rnd.sample(range(1 << n), min(1 << n, rnd.choice([2, 3, 4])))
            ts = ['a[%d] * (%s)' % (b, blade_src(b)) if b % 3 else 'c<%d> * (%s)' % (b + 2, blade_src(b)) for b in bs]
            for o in range(2):
                us = rnd.sample(ts, len(ts))
                k = rnd.randrange(1, len(us))
                e = '(%s) + (%s)' % (' + '.join(us[:k]), ' + '.join(us[k:]))
                ps.append(P(ids, m, 'auto r = %s; auto s = %s; out[0] = std::is_same_v<decltype(r), decltype(s)>; %s' % (e, lit(ts), 'auto t = s - r; out[1] = t.values().end() - t.values().begin();' if all('a[' in t for t in ts) else 'out[1] = %d;' % len(ts)),
                            ret({0: ONE, 1: V.const(len(ts))}), 'type of %s' % e, 0.3))
    return ps
