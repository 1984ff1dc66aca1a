"""Helpers shared by the property definitions."""
from .engine import Probe
from .refga import MODELS, Algebra, Model, diag, add, sub, neg, scale, scalar, vec, multi, full, bits_of_grade, take, clean, reverse, involute, conjugate, grade
from .ring import V, ZERO, ONE


def ret(mv):
    """Specification: a normal return with these coefficients, on every input."""
    r = ('ret', dict(mv))
    return lambda dec: r


def var(n):
    return V.var(n)


def A(i):
    return V.var('a%d' % i)


def B(i):
    return V.var('b%d' % i)


def full_src(n, name, lo=None, hi=None):
    """A general multivector (or a range of grades) over n dimensions, filled from name[bitset]."""
    t = 'double, %d' % n
    if lo is not None:
        t += ', %d, %d' % (lo, lo if hi is None else hi)
    return 'fill(full_multivector_t<%s>(), %s)' % (t, name)


def kvec_src(n, name, k):
    return 'fill(full_kvector_t<double, %d, %d>(), %s)' % (n, k, name)


def kvec(name, n, k):
    return {b: V.var('%s%d' % (name, b)) for b in bits_of_grade(n, k)}


def dump(n, e):
    return 'dump<%d>(%s, out);' % (n, e)


class Ids:
    def __init__(self, prefix):
        self.prefix = prefix
        self.n = 0

    def __call__(self):
        self.n += 1
        return '%s_%d' % (self.prefix, self.n)


def dyn_blades(n, nm='x', k='a', lo=None, hi=None):
    """Runtime blades: (declaration of nm, its value, possible grades, text), over every blade of a range of grades that the type allows."""
    out = []
    for l in range(n + 1):
        for h in range(max(l, 1), n + 1):
            if (lo is not None and l < lo) or (hi is not None and h > hi):
                continue
            for b in range(1 << n):
                if l <= bin(b).count('1') <= h:
                    out.append(('scaled_basis_blade_t<double, %d, %d> %s(make_sequential_storage(%s[0]), make_sequential_storage(bitset_t(%d))); ' % (l, h, nm, k, b), {b: V.var(k + '0')}, range(l, h + 1), 'a runtime blade %s of grade %d to %d' % (bin(b)[2:].zfill(n), l, h)))
                    out.append(('unit_basis_blade_t<%d, %d> %s(make_sequential_storage(bitset_t(%d))); ' % (l, h, nm, b), {b: V.const(1)}, range(l, h + 1), 'a unit runtime blade %s of grade %d to %d' % (bin(b)[2:].zfill(n), l, h)))
    return out
