"""C09, C10: algebraic simplification of scalar expressions and lazy evaluation of multivector expressions."""
from ..common import *
from ..ring import vabs
from .algebra import P, sc, sqrt, when_nonneg, when_nonzero, Fr
from .maths import fval
from .storage import forms


class T:
    """A scalar expression: source, normal form and the conditions under which it is defined."""
    __slots__ = ('src', 'v', 'conds', 'size')

    def __init__(self, src, v, conds=(), size=1):
        self.src, self.v, self.conds, self.size = src, v, tuple(conds), size


def lcg(seed):
    x = seed
    while True:
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        yield x >> 33


def merge(*cs):
    out = []
    for c in cs:
        for d in c:
            if d not in out:
                out.append(d)
    return tuple(out)


def binary(op, l, r):
    src = '(%s %s %s)' % (l.src, op, r.src)
    cs = merge(l.conds, r.conds)
    size = l.size + r.size + 1
    if op == '+':
        return T(src, l.v + r.v, cs, size)
    if op == '-':
        return T(src, l.v - r.v, cs, size)
    if op == '*':
        return T(src, l.v * r.v, cs, size)
    if r.v.is_const():
        return None if r.v.const_value() == 0 else T(src, l.v * r.v.pow(-1), cs, size)
    return T(src, l.v * r.v.pow(-1), cs + ((r.v, '!='),), size)


def unary(f, x):
    size = x.size + 1
    c = x.v.const_value() if x.v.is_const() else None
    if f == '-':
        return T('(-%s)' % x.src, -x.v, x.conds, size)
    if f == 'abs':
        return T('abs(%s)' % x.src, vabs(x.v), x.conds, size)
    if f == 'sqrt':
        if c is not None:
            return None if c < 0 or not is_square(c) else T('sqrt(%s)' % x.src, x.v.pow(Fr(1, 2)) if c else x.v, x.conds, size)
        return T('sqrt(%s)' % x.src, sqrt(x.v), x.conds + ((x.v, '>'),), size)
    if f[:3] == 'pow':
        k = Fr(f[4:])
        src = 'pow(%s, %s)' % (x.src, const_src(k))
        if c is not None:
            if c == 0 or k.denominator != 1:
                return None
            return T(src, V.const(Fr(c) ** int(k)), x.conds, size)
        if k.denominator != 1:
            return T(src, x.v.pow(k), x.conds + ((x.v, '>'),), size)
        return T(src, x.v.pow(k), x.conds + (((x.v, '!='),) if k <= 0 else ()), size)
    if f in ('exp', 'cos', 'sin', 'cosh', 'sinh'):
        return None if c is not None else T('%s(%s)' % (f, x.src), fval(f, x.v), x.conds, size)
    raise KeyError(f)


def is_square(c):
    c = Fr(c)
    r = lambda n: round(n ** .5) ** 2 == n
    return r(c.numerator) and r(c.denominator)


def const_src(k):
    k = Fr(k)
    return 'c<%d>' % k.numerator if k.denominator == 1 else '(c<%d> / c<%d>)' % (k.numerator, k.denominator)


X, Y = T('x', A(0)), T('y', B(0))


def cst(k):
    return T(const_src(k), V.const(Fr(k)))


def defined(t):
    """The value of t wherever every step of it is defined."""
    def spec(dec):
        for d, rel in t.conds:
            if not dec(d, rel):
                return ('any',)
        return ('ret', sc(t.v))
    return spec


def c09_terms(tier):
    """Systematic and mixed expression trees."""
    out, seen = [], set()

    def put(t):
        if t is not None and t.src not in seen and len(t.v.t) < 400:
            seen.add(t.src)
            out.append(t)
    consts = [cst(k) for k in (0, 1, 2, -1, -3, Fr(1, 2), Fr(-2, 3))]
    leaves = [X, Y] + consts
    fns = ['-', 'abs', 'sqrt', 'pow 2', 'pow 3', 'pow -1', 'pow -2', 'pow 1/2', 'pow -1/2', 'pow 3/2', 'exp', 'cos', 'pow 0', 'pow 1']
    ops = '+-*/'
    d1 = [t for t in (binary(o, l, r) for o in ops for l in leaves for r in leaves) if t is not None]
    d1 += [t for t in (unary(f, x) for f in fns for x in (X, Y)) if t is not None]
    for t in d1:
        put(t)
    # collection of like terms and merging of powers: every pair of small terms under every operation
    base = [X, Y, cst(2), cst(-3), cst(Fr(1, 2))] + [t for t in (
        unary('-', X), unary('abs', X), unary('sqrt', X), unary('pow 2', X), unary('pow 3', X), unary('pow -1', X), unary('pow -2', X), unary('pow 1/2', X), unary('pow -1/2', X), unary('exp', X), unary('cos', X),
        binary('*', cst(2), X), binary('*', X, cst(-3)), binary('/', X, cst(2)), binary('/', cst(2), X), binary('*', X, Y), binary('*', Y, X), binary('/', X, Y), binary('/', Y, X), binary('+', X, Y), binary('-', X, Y), binary('-', Y, X),
        binary('+', X, cst(1)), binary('-', cst(1), X), binary('*', binary('*', X, X), Y), binary('*', cst(Fr(1, 2)), binary('*', X, Y)), unary('pow 2', binary('+', X, Y)), unary('pow -1', binary('*', X, Y)),
        binary('*', cst(-1), binary('+', X, Y)), unary('abs', binary('-', X, Y)), unary('sqrt', binary('*', X, Y)), unary('pow -1', binary('+', X, Y)), binary('*', unary('sqrt', X), Y), unary('pow 2', unary('sqrt', X))) if t is not None]
    pairs = [binary(o, l, r) for o in ops for l in base for r in base]
    for t in pairs:
        put(t)
    # functions of small sums, products and quotients
    for t in pairs:
        if t is not None and t.size <= 5:
            for f in fns:
                put(unary(f, t))
    # three operands in every association
    three = [X, Y, cst(2), binary('*', X, Y), unary('pow -1', X), unary('-', Y), binary('*', cst(-2), X), cst(Fr(-1, 2))]
    for o1 in ops:
        for o2 in ops:
            for l in three:
                for m_ in three:
                    for r in three:
                        lm = binary(o1, l, m_)
                        put(binary(o2, lm, r) if lm is not None else None)
                        mr = binary(o2, m_, r)
                        put(binary(o1, l, mr) if mr is not None else None)
    # mixed deeper trees
    g = lcg(12345)
    pool = base + d1
    for _ in range(6000 if tier == 'quick' else 30000):
        l, r = pool[next(g) % len(pool)], pool[next(g) % len(pool)]
        if next(g) % 3 == 0 and out:
            l = out[next(g) % len(out)]
        t = binary(ops[next(g) % 4], l, r)
        if t is None or t.size > 13:
            continue
        if next(g) % 4 == 0:
            t = unary(fns[next(g) % len(fns)], t) or t
        put(t)
    return out


def rational(c):
    return 'c<%d>' % c if Fr(c).denominator == 1 else '(c<%d> / c<%d>)' % (Fr(c).numerator, Fr(c).denominator)


def c09_constants(ids, m, tier):
    """Arithmetic of compile-time constants: a grid of integers and fractions under every operation."""
    todo = []
    ints = list(range(-9, 10)) + [12, 15, 16, 27, 100, 255, 1024]
    for x in ints:
        for y in ints:
            if y != 0 and (abs(x) <= 9 and abs(y) <= 9 or (x * 7 + y) % 5 == 0):
                todo.append(('c<%d> / c<%d>' % (x, y), V.const(Fr(x, y))))
                todo.append(('c<%d> * c<%d>' % (x, y), V.const(x * y)))
                todo.append(('c<%d> + c<%d>' % (x, y), V.const(x + y)))
                todo.append(('c<%d> - c<%d>' % (x, y), V.const(x - y)))
    fr = [Fr(p, q) for q in (1, 2, 3, 4, 6, 9) for p in (-7, -4, -3, -2, -1, 1, 2, 3, 4, 8) if Fr(p, q).denominator == q]
    for i, x in enumerate(fr):
        for j, y in enumerate(fr):
            if x.denominator == 1 and y.denominator == 1 or (i * 31 + j * 17) % (3 if tier == 'quick' else 1):
                continue
            for o in '+-*/':
                v = x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x / y
                todo.append(('%s %s %s' % (rational(x), o, rational(y)), V.const(v)))
    for x in (-5, -3, -2, -1, 1, 2, 3, 5, 7, 10, Fr(1, 2), Fr(-2, 3), Fr(3, 4)):
        for k in list(range(-7, 14)) + [16, 17]:
            v = Fr(x) ** k
            if max(abs(v.numerator), v.denominator) < 1 << 31:
                todo.append(('pow(%s, c<%d>)' % (rational(x), k), V.const(v)))
    for x in list(range(1, 40)) + [49, 64, 81, 100, 144, 1000, 10000, 40000]:
        todo.append(('sqrt(c<%d>)' % x, V.const(x).pow(Fr(1, 2))))
        if x < 20 or is_square(x):
            todo.append(('pow(c<%d>, c<-1> / c<2>)' % x, V.const(x).pow(Fr(-1, 2))))
    for x in fr:
        todo.append(('abs(%s)' % rational(x), V.const(abs(x))))
        todo.append(('-%s' % rational(x), V.const(-x)))
    ps = []
    for i in range(0, len(todo), 40):
        part = todo[i:i + 40]
        ps.append(P(ids, m, ' '.join('out[%d] = double(%s);' % (j, e) for j, (e, v) in enumerate(part)), ret({j: v for j, (e, v) in enumerate(part) if v.t}), 'constants ' + ', '.join(e for e, v in part)[:150] + ' ...', 1.0))
    return ps


def c09(tier):
    ids = Ids('c09')
    ps = []
    m = MODELS['ga1e']
    ps += c09_constants(ids, m, tier)
    ts = c09_terms(tier)
    want = 2600 if tier == 'quick' else 14000
    for i, t in enumerate(ts):
        if i > 700 and ((i * 2654435761) % (1 << 32)) * len(ts) > want << 32:
            continue
        lazily = 'auto p = scalar(a[0]); auto q = scalar(b[0]); auto [lazy, x, y] = make_lazy_context_tuple(p, q); '
        ps.append(P(ids, m, lazily + dump(1, 'lazy.eval(%s)' % t.src), defined(t), t.src + ', evaluated lazily', 0.15 + .01 * t.size))
        if i % 7 == 0:
            eager = 'auto x = scalar(a[0]); auto y = scalar(b[0]); '
            ps.append(P(ids, m, eager + dump(1, t.src), defined(t), t.src, 0.12))
    return ps


MV1 = [
    ('-{0}', lambda g, x: neg(x)), ('~{0}', lambda g, x: reverse(x)), ('involute({0})', lambda g, x: involute(x)), ('conjugate({0})', lambda g, x: conjugate(x)),
    ('dual({0})', lambda g, x: g.dual(x)), ('undual({0})', lambda g, x: g.undual(x)), ('rnorm_sqr({0})', lambda g, x: sc(g.rnorm_sqr(x))),
    ('{0} * {0}', lambda g, x: g.gp(x, x)), ('{0} ^ {0}', lambda g, x: g.op(x, x)), ('{0} < {0}', lambda g, x: g.lcont(x, x)), ('{0} * ~{0}', lambda g, x: g.gp(x, reverse(x))), ('{0} + {0}', lambda g, x: add(x, x)),
    ('{0} - {0}', lambda g, x: {}), ('{0} - ~{0}', lambda g, x: sub(x, reverse(x))), ('c<3> * {0} - {0} / c<2>', lambda g, x: scale(x, V.const(Fr(5, 2)))), ('undual(dual({0}))', lambda g, x: x),
    ('take_grade({0}, c<1>)', lambda g, x: take(x, 1)), ('take_grade({0}, c<0>)', lambda g, x: take(x, 0)), ('take_grade({0} * {0}, c<2>)', lambda g, x: take(g.gp(x, x), 2)), ('c<0> * {0}', lambda g, x: {}), ('{0}', lambda g, x: x),
    ('{0} + c<1>', lambda g, x: add(x, scalar(1))),
]
MV2 = [
    ('{0} + {1}', lambda g, x, y: add(x, y)), ('{0} - {1}', lambda g, x, y: sub(x, y)), ('{0} * {1}', lambda g, x, y: g.gp(x, y)), ('{0} ^ {1}', lambda g, x, y: g.op(x, y)),
    ('{0} < {1}', lambda g, x, y: g.lcont(x, y)), ('{0} > {1}', lambda g, x, y: g.rcont(x, y)), ('{0} | {1}', lambda g, x, y: g.dot(x, y)), ('hip({0}, {1})', lambda g, x, y: g.hip(x, y)), ('sp({0}, {1})', lambda g, x, y: g.sp(x, y)),
    ('rp({0}, {1})', lambda g, x, y: g.rp(x, y)), ('cp({0}, {1})', lambda g, x, y: g.cp(x, y)),
    ('{0} * {1} * {0}', lambda g, x, y: g.gp(g.gp(x, y), x)), ('{0} * {1} - {1} * {0}', lambda g, x, y: sub(g.gp(x, y), g.gp(y, x))), ('({0} + {1}) * ({0} - {1})', lambda g, x, y: g.gp(add(x, y), sub(x, y))),
    ('({0} ^ {1}) + ({1} ^ {0})', lambda g, x, y: add(g.op(x, y), g.op(y, x))), ('~({0} * {1}) - ~{1} * ~{0}', lambda g, x, y: {}), ('({0} | {1}) * {0}', lambda g, x, y: g.gp(g.dot(x, y), x)),
    ('rnorm_sqr({0} + {1})', lambda g, x, y: sc(g.rnorm_sqr(add(x, y)))), ('dual({0} ^ {1})', lambda g, x, y: g.dual(g.op(x, y))), ('({0} < dual({1})) - c<2> * {0}', lambda g, x, y: sub(g.lcont(x, g.dual(y)), scale(x, V.const(2)))),
    ('{1} * {0} + c<2> * {0} * {1} - {1}', lambda g, x, y: sub(add(g.gp(y, x), scale(g.gp(x, y), V.const(2))), y)), ('({0} * {1}) ^ {1}', lambda g, x, y: g.op(g.gp(x, y), y)), ('take_grade({0} * {1}, c<2>)', lambda g, x, y: take(g.gp(x, y), 2)),
]


def c10_operands(m, v):
    """Operands a lazy context accepts, in every storage form, general multivectors included."""
    n = m.n
    out = [(s, x) for s, x, nat, _ in forms(m, v) if not nat]
    out.append((full_src(n, v), full(v, n)))
    for k in range(1, n + 1):
        out.append((kvec_src(n, v, k), kvec(v, n, k)))
    return out


def c10(tier):
    ids = Ids('c10')
    ps = []
    k = 0
    for ns, step in (('ga3e', 1), ('ga2m', 2), ('ga2c', 2), ('ga2p', 3), ('ga2h', 3), ('ga1e', 3), ('ga1c', 3), ('ga1m', 3), ('ga3h', 9), ('ga4e', 9), ('ga3p', 9)):
        m = MODELS[ns]
        n, g = m.n, m.alg
        L, R = c10_operands(m, 'a'), c10_operands(m, 'b')
        for src, f in MV1:
            for s, v in L:
                k += 1
                if 'dual' in src and m.kind == 'p' or k * 37 % (step if tier != 'quick' else step * 3):
                    continue
                if n > 3 and len(v) > 6 and '* ' in src:
                    continue
                e = src.format('x')
                ps.append(P(ids, m, 'auto p = %s; auto [lazy, x] = make_lazy_context_tuple(p); %s' % (s, dump(n, 'lazy.eval(%s)' % e)), ret(f(g, v)), '%s of %s, lazily' % (e, s), 0.4))
        for oi, (src, f) in enumerate(MV2):
            for i, (ls, lv) in enumerate(L):
                for j, (rs, rv) in enumerate(R):
                    k += 1
                    if 'dual' in src and m.kind == 'p' or (k * 40503 % 65536) * step > 65536 * (.013 if tier == 'quick' else .4):
                        continue
                    if len(lv) * len(rv) > (16 if src.count('{') < 4 else 9):
                        continue
                    e = src.format('x', 'y')
                    ctx = ('auto [lazy, x, y] = make_lazy_context_tuple(p, q); ', 'auto lazy = make_lazy_context(p, q); auto x = lazy.template argument<0>(); auto y = lazy.template argument<1>(); ',
                           'auto lazy = make_lazy_context(p, q); auto t = lazy.arguments(); auto x = std::get<0>(t); auto y = std::get<1>(t); ')[k % 3]
                    ps.append(P(ids, m, 'auto p = %s; auto q = %s; %s%s' % (ls, rs, ctx, dump(n, 'lazy.eval(%s)' % e)), ret(f(g, lv, rv)), '%s of %s and %s, lazily' % (e, ls, rs), 0.5))
        # one input twice, several expressions from one context, contexts over the arguments of another
        for i, (s, v) in enumerate(L):
            if n > 3 or step > 2 and i % 3:
                continue
            if len(v) <= 4:
                ps.append(P(ids, m, 'auto p = %s; auto [lazy, x, y] = make_lazy_context_tuple(p, p); %s' % (s, dump(n, 'lazy.eval(x * y + (y ^ x) - c<2> * (x | y))')),
                            ret(sub(add(g.gp(v, v), g.op(v, v)), scale(g.dot(v, v), V.const(2)))), 'one input %s given twice' % s, 0.5))
            w = {1: B(1), 2: B(2)} if n > 1 else {1: B(1)}
            ws = '(b[1] * %s%s)' % (m.names[0], ' + b[2] * %s' % m.names[1] if n > 1 else '')
            if len(v) <= 4:
                ps.append(P(ids, m, 'auto p = %s; auto q = %s; auto [lazy, x, y] = make_lazy_context_tuple(p, q); auto f = x * y; auto h = f + x; auto k1 = lazy.eval(f); auto k2 = lazy.eval(h - (y ^ f)); %s' % (s, ws, dump(n, 'k1 - k2')),
                            ret(sub(g.gp(v, w), sub(add(g.gp(v, w), v), g.op(w, g.gp(v, w))))), 'several expressions from one context over %s' % s, 0.6))
                ps.append(P(ids, m, 'auto p = %s; auto q = %s; auto [lazy, x, y] = make_lazy_context_tuple(p, q); auto [inner, u, v] = make_lazy_context_tuple(x * y, y); %s' % (s, ws, dump(n, 'lazy.eval(inner.eval(u * v + u))')),
                            ret(add(g.gp(g.gp(v, w), w), g.gp(v, w))), 'a context over the arguments of another, %s' % s, 0.6))
                ps.append(P(ids, m, 'auto p = %s; auto q = %s; auto r = c<2> * %s; auto [lazy, x, z, y] = make_lazy_context_tuple(p, r, q); %s' % (s, ws, m.names[0], dump(n, 'lazy.eval(x * z * y - y)')),
                            ret(sub(g.gp(g.gp(v, {1: V.const(2)}), w), w)), 'a constant input between %s and another' % s, 0.5))
    # an operand that is not an input of the context
    m = MODELS['ga3e']
    for src, v in (('x - 1', {0: -ONE, 1: A(1)}), ('x + b[0]', {0: B(0), 1: A(1)}), ('x + q', {1: A(1), 2: B(2)}), ('2.0 * x', {1: A(1).scale(2)})):
        ps.append(P(ids, m, 'auto p = a[1] * e1; auto q = b[2] * e2; auto [lazy, x] = make_lazy_context_tuple(p); %s' % dump(3, 'lazy.eval(%s)' % src), ret(v), '%s lazily, the other operand not being an input of the context' % src, 0.3))
    # functions that branch on, or take roots of, the values of their arguments
    for ns in ('ga3e', 'ga2m', 'ga2c', 'ga2h', 'ga2p'):
        m = MODELS[ns]
        n, g = m.n, m.alg
        ctx = 'auto [lazy, x, y] = make_lazy_context_tuple(p, q); '
        b1 = kvec('b', n, 1)
        for s, v in c10_operands(m, 'a'):
            if len(v) > 4:
                continue
            q = g.rnorm_sqr(v)
            pre = 'auto p = %s; auto q = %s; %s' % (s, kvec_src(n, 'b', 1), ctx)
            ps.append(P(ids, m, pre + dump(n, 'lazy.eval(rnorm(x))'), when_nonneg(q, sc(sqrt(q))) if not q.is_const() else (ret(sc(sqrt(q))) if q.const_value() >= 0 else (lambda dec: ('any',))), 'rnorm of %s, lazily' % s, 0.5))
            if q.t:
                ps.append(P(ids, m, pre + dump(n, 'lazy.eval(unit(x))'), when_nonzero(q, lambda v=v, g=g: g.unit(v)), 'unit of %s, lazily' % s, 0.5))
                ps.append(P(ids, m, pre + dump(n, 'lazy.eval(inv(x))'), when_nonzero(q, lambda v=v, g=g: g.inv(v)), 'inv of %s, lazily' % s, 0.5))
                ps.append(P(ids, m, pre + dump(n, 'lazy.eval(igp(y, x))'), when_nonzero(q, lambda v=v, g=g, b1=b1: g.gp(b1, g.inv(v))), 'igp of a vector and %s, lazily' % s, 0.6))
                if len(v) <= 2:
                    ps.append(P(ids, m, pre + dump(n, 'lazy.eval(x * y * inv(x))'), when_nonzero(q, lambda v=v, g=g, b1=b1: g.gp(g.gp(v, b1), g.inv(v))), 'x * y * inv(x) with x %s, lazily' % s, 0.8))
        # sums with several runtime blades: each component keeps its own value and its own blade
        if m.kind != 'c' and n >= 2:
            hi = n - 1
            SUMS = [('a[1] * (e(i) ^ e(j)) + a[0] * e(i)', {1: A(0), 1 | 1 << hi: A(1)}), ('a[0] * e(j) + a[1] * (e(i) ^ e(j))', {1 << hi: A(0), 1 | 1 << hi: A(1)}), ('a[2] + a[0] * e(i) + a[1] * (e(j) ^ e(i))', {0: A(2), 1: A(0), 1 | 1 << hi: -A(1)}),
                    ('c<2> * e(i) + a[1] * (e(i) ^ e(j))', {1: V.const(2), 1 | 1 << hi: A(1)}), ('c<2> * e(j) + (e(i) ^ e(j))', {1 << hi: V.const(2), 1 | 1 << hi: ONE}), ('a[0] * e(i) + (e(j) ^ e(i))', {1: A(0), 1 | 1 << hi: -ONE})]
            QS = [('b[0] * e(c<2>)', {2: B(0)}), ('b[0] * e(l)', {2: B(0)}), ('b[1] * e(j) + b[0] * (e(l) ^ e(i))', None)]
            for s, v in SUMS:
                pre = 'index_t i = 1, j = %d, l = 2; auto p = %s; ' % (n, s)
                ps.append(P(ids, m, pre + 'auto [lazy, x] = make_lazy_context_tuple(p); ' + dump(n, 'lazy.eval(x)'), ret(v), '%s, lazily' % s, 0.5))
                for src, f in MV1:
                    if 'dual' in src and m.kind == 'p' or tier == 'quick' and ns != 'ga3e' and len(ps) % 2:
                        continue
                    ps.append(P(ids, m, pre + 'auto [lazy, x] = make_lazy_context_tuple(p); ' + dump(n, 'lazy.eval(%s)' % src.format('x')), ret(f(g, v)), '%s of %s, lazily' % (src, s), 0.6))
                for qs, qv in QS:
                    if qv is None:
                        qv = add({1 << hi: B(1)}, g.op({2: B(0)}, {1: ONE}))
                    for src, f in MV2[:9]:
                        k += 1
                        if tier == 'quick' and k % (3 if ns == 'ga3e' else 8):
                            continue
                        for l_, r_, pv, qq in (('x', 'y', v, qv), ('y', 'x', qv, v)):
                            ps.append(P(ids, m, pre + 'auto q = %s; ' % qs + ctx + dump(n, 'lazy.eval(%s)' % src.format(l_, r_)), ret(f(g, pv, qq)), '%s of %s and %s, lazily' % (src.format(l_, r_), s, qs), 0.8))
        # runtime-indexed blades
        for b in [1 << i for i in range(n)]:
            for c in [1 << i for i in range(n)]:
                if m.kind == 'c':
                    continue
                for src, f in MV2[2:9]:
                    e = src.format('x', 'y')
                    k += 1
                    if (k % 2 or ns != 'ga3e' and k % 4) and tier == 'quick':
                        continue
                    ps.append(P(ids, m, 'index_t i = %d, j = %d; auto p = a[0] * e(i); auto q = b[0] * e(j); %s%s' % (b.bit_length(), c.bit_length(), ctx, dump(n, 'lazy.eval(%s)' % e)),
                                ret(f(g, {b: A(0)}, {c: B(0)})), '%s of runtime-indexed e(%d) and e(%d), lazily' % (e, b.bit_length(), c.bit_length()), 0.4))
    return ps
