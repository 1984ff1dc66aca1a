"""Reference geometric algebra over the ring normal forms: the textbook definitions, for any symmetric metric matrix.

Multivectors are dicts {bitset of a wedge of basis vectors: V}.  Everything is derived from the metric matrix by
e_i B = e_i ^ B + e_i _| B  and  (e_i ^ A) B = e_i (A B) - (e_i _| A) B,  so non-orthogonal metrics need no special case.
"""
from fractions import Fraction as Fr
from .ring import V, ZERO, ONE, equal, vabs


def grade(b):
    return bin(b).count('1')


def reorder_sign(a, b):
    a >>= 1
    n = 0
    while a:
        n += bin(a & b).count('1')
        a >>= 1
    return -1 if n & 1 else 1


class Algebra:
    def __init__(self, metric, names=None):
        self.M = [[Fr(x) if not isinstance(x, V) else x for x in r] for r in metric]
        self.n = len(metric)
        self._gp = {}
        self.names = names

    # ---- basis blade products: dict bits -> rational
    def _lc_vec(self, i, b):
        """e_i _| blade b"""
        out = {}
        sgn = 1
        for j in range(self.n):
            if b >> j & 1:
                m = self.M[i][j]
                if m != 0:
                    out[b & ~(1 << j)] = out.get(b & ~(1 << j), 0) + sgn * m
                sgn = -sgn
        return out

    def _vec_times(self, i, mv):
        out = {}
        for b, c in mv.items():
            if not b >> i & 1:
                s = reorder_sign(1 << i, b)
                out[b | 1 << i] = out.get(b | 1 << i, 0) + s * c
            for k, m in self._lc_vec(i, b).items():
                out[k] = out.get(k, 0) + m * c
        return {k: c for k, c in out.items() if c != 0}

    def gp_blades(self, a, b):
        r = self._gp.get((a, b))
        if r is None:
            if a == 0:
                r = {b: Fr(1)}
            else:
                i = (a & -a).bit_length() - 1
                rest = a & ~(1 << i)
                # e_i ^ rest = e_i rest - e_i _| rest
                r = dict(self._vec_times(i, self.gp_blades(rest, b)))
                for k, m in self._lc_vec(i, rest).items():
                    for kk, c in self.gp_blades(k, b).items():
                        r[kk] = r.get(kk, 0) - m * c
                r = {k: c for k, c in r.items() if c != 0}
            self._gp[(a, b)] = r
        return r

    # ---- multivector operations
    def prod(self, A, B, keep):
        out = {}
        for a, x in A.items():
            for b, y in B.items():
                t = self.gp_blades(a, b)
                if not t:
                    continue
                xy = None
                for k, c in t.items():
                    if keep(grade(a), grade(b), grade(k)):
                        if xy is None:
                            xy = x * y
                        out[k] = out.get(k, ZERO) + xy.scale(c)
        return clean(out)

    def gp(self, A, B):
        return self.prod(A, B, lambda r, s, k: True)

    def op(self, A, B):
        out = {}
        for a, x in A.items():
            for b, y in B.items():
                if not a & b:
                    out[a | b] = out.get(a | b, ZERO) + (x * y).scale(reorder_sign(a, b))
        return clean(out)

    def lcont(self, A, B):
        return self.prod(A, B, lambda r, s, k: k == s - r)

    def rcont(self, A, B):
        return self.prod(A, B, lambda r, s, k: k == r - s)

    def dot(self, A, B):
        return self.prod(A, B, lambda r, s, k: k == abs(r - s))

    def hip(self, A, B):
        return self.prod(A, B, lambda r, s, k: r and s and k == abs(r - s))

    def sp(self, A, B):
        return self.prod(A, B, lambda r, s, k: k == 0)

    def rp(self, A, B):
        """Common-factor form: blades whose union spans the space meet in their intersection."""
        full = (1 << self.n) - 1
        out = {}
        for a, x in A.items():
            for b, y in B.items():
                if a | b == full:
                    m = a & b
                    out[m] = out.get(m, ZERO) + (x * y).scale(reorder_sign(a ^ m, b ^ m))
        return clean(out)

    def cp(self, A, B):
        return scale(sub(self.gp(A, B), self.gp(B, A)), Fr(1, 2))

    def I(self):
        return {(1 << self.n) - 1: ONE}

    def rnorm_sqr(self, A):
        return self.sp(A, reverse(A)).get(0, ZERO)

    def inv(self, A):
        return scale(reverse(A), self.rnorm_sqr(A).inv())

    def igp(self, A, B):
        return self.gp(A, self.inv(B))

    def unit(self, A):
        return scale(A, vabs(self.rnorm_sqr(A)).pow(Fr(-1, 2)))

    def dual(self, A, J=None):
        return self.lcont(A, self.inv(J or self.I()))

    def undual(self, A, J=None):
        return self.lcont(A, J or self.I())


def clean(A):
    return {k: v for k, v in A.items() if v.t}


def add(A, B):
    out = dict(A)
    for k, v in B.items():
        out[k] = out.get(k, ZERO) + v
    return clean(out)


def neg(A):
    return {k: -v for k, v in A.items()}


def sub(A, B):
    return add(A, neg(B))


def scale(A, s):
    if isinstance(s, V):
        return clean({k: v * s for k, v in A.items()})
    return clean({k: v.scale(s) for k, v in A.items()})


def signs(A, f):
    return {k: (v if f(grade(k)) > 0 else -v) for k, v in A.items()}


def reverse(A):
    return signs(A, lambda g: -1 if (g * (g - 1) // 2) & 1 else 1)


def involute(A):
    return signs(A, lambda g: -1 if g & 1 else 1)


def conjugate(A):
    return signs(A, lambda g: -1 if (g * (g + 1) // 2) & 1 else 1)


def take(A, k):
    return {b: v for b, v in A.items() if grade(b) == k}


def scalar(x):
    return clean({0: x if isinstance(x, V) else V.const(x)})


def vec(*xs):
    return clean({1 << i: (x if isinstance(x, V) else V.const(x)) for i, x in enumerate(xs)})


def multi(name, bits, start=0):
    """name[start + i] as coefficient of the i-th listed blade"""
    return {b: V.var('%s%d' % (name, start + i)) for i, b in enumerate(bits)}


def full(name, n):
    return {b: V.var('%s%d' % (name, b)) for b in range(1 << n)}


def bits_of_grade(n, k):
    return [b for b in range(1 << n) if grade(b) == k]


# ---- the metrics of the documented models
def diag(*d):
    return [[d[i] if i == j else 0 for j in range(len(d))] for i in range(len(d))]


def conformal_metric(d):
    m = diag(*([1] * d + [0, 0]))
    m[d][d + 1] = m[d + 1][d] = -1
    return m


class Model:
    def __init__(self, ns, kind, d, metric, names):
        self.ns, self.kind, self.d = ns, kind, d
        self.alg = Algebra(metric, names)
        self.n = self.alg.n
        self.names = names
        self.header = 'gatl/%s.hpp' % ns

    def blade_src(self, b):
        return ' ^ '.join(self.names[i] for i in range(self.n) if b >> i & 1)


def _models():
    out = {}
    for d in range(1, 6):
        out['ga%de' % d] = Model('ga%de' % d, 'e', d, diag(*[1] * d), ['e%d' % i for i in range(1, d + 1)])
    for d in range(1, 5):
        e = ['e%d' % i for i in range(1, d + 1)]
        out['ga%dh' % d] = Model('ga%dh' % d, 'h', d, diag(*[1] * (d + 1)), e + ['ep'])
        out['ga%dp' % d] = Model('ga%dp' % d, 'p', d, diag(*([1] * d + [0])), e + ['e0'])
    for d in range(1, 4):
        e = ['e%d' % i for i in range(1, d + 1)]
        out['ga%dm' % d] = Model('ga%dm' % d, 'm', d, diag(*([1] * (d + 1) + [-1])), e + ['ep', 'em'])
        out['ga%dc' % d] = Model('ga%dc' % d, 'c', d, conformal_metric(d), e + ['no', 'ni'])
    return out


MODELS = _models()
