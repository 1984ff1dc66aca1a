"""Exact normal form for the values computed by straight-line arithmetic.

A value is a finite sum  sum_i c_i * m_i  with rational c_i and monomials m_i.  A monomial is a product of
generators raised to rational exponents.  Generators are interned and come in three kinds:

  ('v', name)            an input variable (one coefficient of an operand)
  ('p', polykey)         a polynomial that occurs under a non-polynomial power (denominators, square roots)
  ('f', name, keys...)   an uninterpreted function of normal forms (sin, cos, abs, ...)

Arithmetic is over the reals: floating-point rounding is deliberately not part of the domain.
"""
from fractions import Fraction as Fr
import math

_atoms = {}      # key -> id
_atom_list = []  # id -> key


def _intern(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append(key)
    return i


def atom_key(i):
    return _atom_list[i]


EPS = Fr(1, 10**9)


def norm_const(c):
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            raise ArithmeticError('non-finite constant')
        if c == int(c) and abs(c) < 2**60:
            return int(c)
        f = Fr(c).limit_denominator(100000)
        if f != 0 and abs(float(f) - c) <= 4e-16 * abs(c) * 4:
            return f
        r = repr(c)
        if len(r) <= 7:
            return Fr(r)
        return Fr(c)
    if isinstance(c, Fr) and c.denominator == 1:
        return int(c)
    return c


class V:
    """Normal-form value."""
    __slots__ = ('t', '_key')

    def __init__(self, t):
        self.t = t
        self._key = None

    # -- constructors
    @staticmethod
    def const(c):
        c = norm_const(c)
        return V({(): c}) if c != 0 else V({})

    @staticmethod
    def var(name):
        return V({((_intern(('v', name)), 1),): 1})

    @staticmethod
    def fn(name, *args):
        if name in ('cos', 'cosh') and len(args) == 1:
            args = (vabs(args[0]),)      # even functions
        elif name in ('sin', 'sinh', 'tan', 'tanh') and len(args) == 1 and args[0].t and args[0].key()[0][1] < 0:
            return -V.fn(name, -args[0])  # odd functions
        return V({((_intern(('f', name) + tuple(a.key() for a in args)), 1),): 1})

    # -- queries
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = norm_const(n)
        return V(r)

    def __neg__(self):
        return V({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return V({m: norm_const(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, ex = _mul_mono(m1, m2)
                c = c1 * c2
                if ex is None:
                    n = r.get(m, 0) + c
                    if n == 0:
                        r.pop(m, None)
                    else:
                        r[m] = norm_const(n)
                else:
                    term = V({m: norm_const(c)})
                    for e in ex:
                        term = term * e
                    extra = term if extra is None else extra + term
        res = V(r)
        return res if extra is None else res + extra

    def pow(self, e):
        e = Fr(e)
        if e == 0:
            return ONE
        if e == 1:
            return self
        if e.denominator == 1 and e > 0:
            n = int(e)
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if not self.t:
            if e > 0:
                return ZERO
            raise ZeroDivisionError('power of zero')
        if self.is_const():
            c = self.const_value()
            if e.denominator == 1:
                return V.const(Fr(1) / (Fr(c) ** (-int(e))))
            if c < 0:
                return V.fn('pow', self, V.const(e))
            return V.const(_const_pow(c, e))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if e.denominator == 1:
                return _mono_pow(m, e).scale(Fr(1) / Fr(c) ** (-int(e)))
            if e.denominator == 2 and c > 0:
                return self._sqrt_mono(m, c, e)
            if abs(c) != 1:
                return V({m: 1 if c > 0 else -1}).pow(e).scale(_const_pow(abs(c), e))
            return V({((_intern(('p', self.key())), e),): 1})
        # primitive part: positive content factored out
        content = _content(self)
        prim = self if content == 1 else self.scale(Fr(1) / content)
        if e.denominator == 2:
            q = _poly_sqrt(prim)
            if q is not None:
                return vabs(q).pow(2 * e).scale(_const_pow(content, e))
        k = _const_pow(content, e) if content != 1 else 1
        sign = 1
        if e.denominator == 1:
            lead = prim.key()[0][1]
            if lead < 0:
                prim = -prim
                if int(e) % 2:
                    sign = -1
        return V({((_intern(('p', prim.key())), e),): norm_const(k * sign)})

    def _sqrt_mono(self, m, c, e):
        """(c * m)^e for a positive c and half-integer e: even integral powers leave the root as |.|"""
        res = V.const(_const_pow(c, e))
        rest = []
        for a, k in m:
            if k == int(k) and int(k) % 2 == 0:
                res = res * vabs(V({((a, 1),): 1})).pow(Fr(k) * e)
            elif atom_key(a)[0] == 'p' and k != int(k):
                # P^(n/2) is non-negative wherever it is defined
                res = res * V({((a, k * e),): 1})
            else:
                rest.append((a, k))
        if rest:
            if all(_nonneg_atom(a) for a, k in rest):
                for a, k in rest:
                    if atom_key(a)[0] == 'p':
                        res = res * V({((a, k * e),): 1})
                    else:
                        res = res * V({((_intern(('p', ((((a, 1),), 1),))), k * e),): 1})
            else:
                rv = V({tuple(rest): 1})
                res = res * V({((_intern(('p', rv.key())), e),): 1})
        return res

    def inv(self):
        return self.pow(-1)

    def __truediv__(self, o):
        return self * o.inv()

    def __repr__(self):
        return show(self)


def _poly_sqrt(p):
    """The polynomial whose square is p (two or more terms, content 1), or None."""
    if len(p.t) > 60 or len(p.t) < 3:
        return None
    atoms = sorted({a for m in p.t for a, _ in m})
    terms = {}
    for m, c in p.t.items():
        if any(Fr(k).denominator != 1 for _, k in m):
            return None
        d = dict(m)
        terms[tuple(int(d.get(a, 0)) for a in atoms)] = Fr(c)

    def root(c):
        if c <= 0:
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fr(n, d) if n * n == c.numerator and d * d == c.denominator else None
    lead, trail = max(terms), min(terms)
    for x in (lead, trail):
        if any(k % 2 for k in x) or root(terms[x]) is None:
            return None
    l = tuple(k // 2 for k in lead)
    lc = root(terms[lead])
    r = {l: lc}
    rem = dict(terms)
    del rem[lead]
    low = tuple(k // 2 for k in trail)
    for _ in range(len(terms)):
        if not rem:
            return V({tuple((a, k) for a, k in zip(atoms, x) if k): norm_const(c) for x, c in r.items()})
        x = max(rem)
        t = tuple(i - j for i, j in zip(x, l))
        if t < low or t >= l or t in r:
            return None
        tc = rem[x] / (2 * lc)
        for y, yc in list(r.items()) + [(t, tc / 2)]:
            z = tuple(i + j for i, j in zip(y, t))
            v = rem.get(z, 0) - 2 * yc * tc
            if v:
                rem[z] = v
            else:
                rem.pop(z, None)
        r[t] = tc
    return None


def _nonneg_atom(a):
    k = atom_key(a)
    if k[0] == 'f' and k[1] in ('abs', 'cosh', 'exp'):
        return True
    if k[0] == 'p':
        return _nonneg_poly(V(dict(k[1])))
    return False


def _nonneg_poly(p):
    return all(c > 0 and all((Fr(k).denominator == 1 and k % 2 == 0) or _nonneg_atom(a) or (atom_key(a)[0] == 'p' and Fr(k).denominator == 2) for a, k in m)
               for m, c in p.t.items())


def _const_pow(c, e):
    c = Fr(c)
    e = Fr(e)
    if e.denominator == 1:
        return norm_const(c ** int(e))
    if e.denominator == 2:
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return norm_const(Fr(rn, rd) ** int(e * 2))
    return norm_const(float(c) ** float(e))


def _content(p):
    """Positive rational g with p/g having coprime integer coefficients (approximately, for float-born ones)."""
    num = 0
    den = 1
    for c in p.t.values():
        c = Fr(c)
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    return norm_const(Fr(num, den))


def _mono_pow(m, e):
    r = V({(): 1})
    out = []
    for a, k in m:
        ne = Fr(k) * e
        if ne.denominator == 1:
            ne = int(ne)
        out.append((a, ne))
    one = V({(): 1})
    # go through multiplication so that positive integral powers of polynomial generators are expanded
    for a, ne in out:
        one = one * _gen_pow(a, ne)
    return one


def _gen_pow(a, e):
    k = atom_key(a)
    if k[0] == 'p' and e >= 1:
        n = int(e) if Fr(e).denominator == 1 else math.floor(e)
        f = Fr(e) - n
        v = V(dict(k[1])).pow(n)
        if f:
            v = v * V({((a, f),): 1})
        return v
    if k[0] == 'f' and k[1] == 'abs' and (e >= 2 or e <= -2) and Fr(e).denominator == 1:
        base = V(dict(k[2]))
        n = int(e)
        h = (abs(n) // 2) * 2 * (1 if n > 0 else -1)
        v = base.pow(h)
        if n - h:
            v = v * V({((a, n - h),): 1})
        return v
    return V({((a, e),): 1})


def _mul_mono(m1, m2):
    """Product of two monomials: (monomial, None | list of V still to be multiplied)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    ex = None
    for a, k in m2:
        s = d.get(a, 0) + k
        if s == 0:
            d.pop(a, None)
        else:
            if isinstance(s, Fr) and s.denominator == 1:
                s = int(s)
            d[a] = s
    for a in list(d):
        k = atom_key(a)
        e = d[a]
        if (k[0] == 'p' and e >= 1) or (k[0] == 'f' and k[1] == 'abs' and Fr(e).denominator == 1 and (e >= 2 or e <= -2)):
            if ex is None:
                ex = []
            ex.append(_gen_pow(a, e))
            del d[a]
    return tuple(sorted(d.items())), ex


ZERO = V({})
ONE = V({(): 1})


def vabs(v):
    if v.is_const():
        return V.const(abs(v.const_value()))
    if _nonneg_poly(v):
        return v
    if _nonneg_poly(-v):
        return -v
    if len(v.t) == 1:
        (m, c), = v.t.items()
        res = V.const(abs(c))
        for a, k in m:
            if _nonneg_atom(a) or (atom_key(a)[0] == 'p' and Fr(k).denominator == 2) or (Fr(k).denominator == 1 and k % 2 == 0):
                res = res * V({((a, k),): 1})
            elif Fr(k).denominator == 1 and atom_key(a)[0] == 'p':
                res = res * vabs(V(dict(atom_key(a)[1]))).pow(k)
            elif Fr(k).denominator == 1 and abs(k) != 1:
                s = 1 if k > 0 else -1
                res = res * V({((a, k - s),): 1})
                res = res * V.fn('abs', V({((a, 1),): 1})).pow(s)
            else:
                res = res * V.fn('abs', V({((a, 1),): 1})).pow(k)
        return res
    content = _content(v)
    prim = v.scale(Fr(1) / content)
    if prim.key()[0][1] < 0:
        prim = -prim
    for q in (prim, -prim):
        if _poly_sqrt(q) is not None:
            return q.scale(content)
    return V.fn('abs', prim).scale(content)


def is_zero(v):
    """Decides v == 0 as an element of the field generated by the atoms (up to 1e-9 on numeric coefficients)."""
    if not v.t:
        return True
    # clear denominators
    for _ in range(12):
        low = {}
        for m in v.t:
            for a, k in m:
                if k < 0:
                    kk = math.floor(k)
                    low[a] = min(low.get(a, 0), kk)
        if not low:
            break
        factor = V({(): 1})
        for a, k in low.items():
            pass
        # multiply every term by prod a^-k
        mono = tuple(sorted((a, -k) for a, k in low.items()))
        r = ZERO
        for m, c in v.t.items():
            mm, ex = _mul_mono_noexp(m, mono)
            t = V({(): c})
            for a, k in mm:
                t = t * _gen_pow(a, k)
            r = r + t
        v = r
        if not v.t:
            return True
    v = _reduce_trig(v)
    return all(abs(c) < EPS for c in v.t.values())


def _mul_mono_noexp(m1, m2):
    d = dict(m1)
    for a, k in m2:
        s = d.get(a, 0) + k
        if s == 0:
            d.pop(a, None)
        else:
            if isinstance(s, Fr) and s.denominator == 1:
                s = int(s)
            d[a] = s
    return tuple(sorted(d.items())), None


def _reduce_trig(v):
    return v


def equal(a, b):
    if a.t == b.t:
        return True
    return is_zero(a - b)


def subst_abs(v, sign_of):
    """Replace abs atoms whose argument's sign is known: sign_of(V) -> +1/-1/0/None."""
    if not any(atom_key(a)[0] in ('f', 'p') for m in v.t for a, _ in m):
        return v
    r = ZERO
    changed = False
    for m, c in v.t.items():
        t = V({(): c})
        for a, k in m:
            key = atom_key(a)
            if key[0] == 'f':
                args = [subst_abs(V(dict(x)), sign_of) for x in key[2:]]
                if key[1] == 'abs':
                    s = sign_of(args[0])
                    if s is not None:
                        g = args[0] if s >= 0 else -args[0]
                        if s == 0:
                            g = ZERO
                        t = t * g.pow(k)
                        changed = True
                        continue
                    ng = vabs(args[0])
                    nk = ng.key()
                    if nk != (((((a, 1),), 1)),):
                        t = t * ng.pow(k)
                        changed = True
                        continue
                elif any(x.key() != y for x, y in zip(args, key[2:])):
                    t = t * V.fn(key[1], *args).pow(k)
                    changed = True
                    continue
                t = t * V({((a, k),): 1})
            elif key[0] == 'p':
                base = V(dict(key[1]))
                nb = subst_abs(base, sign_of)
                if nb.key() != base.key():
                    t = t * nb.pow(k)
                    changed = True
                else:
                    t = t * V({((a, k),): 1})
            else:
                t = t * V({((a, k),): 1})
        r = r + t
    return r if changed else v


def _monomial_gcd(v):
    """(monomial with the least exponent of every generator, v divided by it)"""
    low = None
    for m in v.t:
        d = dict(m)
        if low is None:
            low = dict(d)
        else:
            for a in set(low) | set(d):
                low[a] = min(low.get(a, 0), d.get(a, 0))
    low = {a: k for a, k in (low or {}).items() if k != 0}
    inv = tuple(sorted((a, -k) for a, k in low.items()))
    r = ZERO
    for m, c in v.t.items():
        mm, _ = _mul_mono_noexp(m, inv)
        t = V({(): c})
        for a, k in mm:
            t = t * _gen_pow(a, k)
        r = r + t
    return low, r


def _divide(p, q):
    """p / q when the polynomial q divides the polynomial p, or None."""
    atoms = sorted({a for x in (p, q) for m in x.t for a, _ in m})
    vec = lambda m: tuple(dict(m).get(a, 0) for a in atoms)
    P = {vec(m): Fr(c) for m, c in p.t.items()}
    Q = {vec(m): Fr(c) for m, c in q.t.items()}
    if any(Fr(k).denominator != 1 or k < 0 for x in list(P) + list(Q) for k in x):
        return None
    lq = max(Q)
    out = {}
    for _ in range(200):
        if not P:
            return V({tuple((a, k) for a, k in zip(atoms, x) if k): norm_const(c) for x, c in out.items()})
        lp = max(P)
        t = tuple(i - j for i, j in zip(lp, lq))
        if min(t, default=0) < 0:
            return None
        tc = P[lp] / Q[lq]
        out[t] = out.get(t, 0) + tc
        for x, c in Q.items():
            z = tuple(i + j for i, j in zip(x, t))
            n = P.get(z, 0) - c * tc
            if n:
                P[z] = n
            else:
                P.pop(z, None)
    return None


def _positive(a):
    k = atom_key(a)
    return k[0] == 'v' and k[1][0] == '+'


def normal_under(v, sign_of):
    """v rewritten with what is known about signs: a generator of known sign becomes +-|generator|, whose powers (fractional
    ones included) add up, and the base of a root is split into the absolute values of its factors."""
    cache = {}

    def rec(v):
        r = ZERO
        for m, c in v.t.items():
            t = V({(): c})
            for a, k in m:
                t = t * atom(a, k)
            r = r + t
        return r

    def fresh(key):
        return _intern(('v', '+' + repr(key)))

    def power(base, k, absolute, orig=None):
        """base^k, or |base|^k"""
        if not absolute and Fr(k).denominator == 1 and k > 0:
            return base.pow(k)
        if not base.t:
            return base.pow(k)
        if base.is_const():
            return V.const(abs(base.const_value())).pow(k) if absolute else base.pow(k)
        whole = Fr(k).denominator == 1
        if not whole and not absolute and 1 not in (sign_of(prim_back(base)), sign_of(orig or base), sign_of(reduced(orig or base))):
            return base.pow(k)      # not known to be defined: left alone
        low, q = _monomial_gcd(base)
        res = ONE
        for a in list(low):
            if atom_key(a)[0] == 'p' and Fr(low[a]).denominator == 1:
                d = V(dict(atom_key(a)[1]))
                while low[a] < 0:
                    n = _divide(q, d)
                    if n is None:
                        break
                    q = n
                    low[a] += 1
        for a, e in low.items():
            e = Fr(e) * k
            e = int(e) if e.denominator == 1 else e
            if e == 0:
                continue
            if _positive(a) or whole and not absolute:
                res = res * (V({((a, e),): 1}) if _positive(a) else _gen_pow(a, e))
            elif atom_key(a)[0] == 'p':
                res = res * factor(V(dict(atom_key(a)[1])), e, absolute)
            else:
                res = res * V({((fresh(atom_key(a)), e),): 1})
        return res * factor(q, k, absolute)

    def factor(q, k, absolute):
        whole = Fr(k).denominator == 1
        if q.is_const():
            return V.const(abs(q.const_value())).pow(k) if absolute or not whole else q.pow(k)
        if whole and k > 0 and not absolute:
            return q.pow(k)
        if len(q.t) == 1:
            return power(q, k, absolute) if _monomial_gcd(q)[0] else q.pow(k)
        c = _content(q)
        prim = q.scale(Fr(1) / c)
        r = _poly_sqrt(prim) or _poly_sqrt(-prim)
        if r is not None:
            s = 1 if _poly_sqrt(prim) is not None or absolute or not whole else (-1) ** int(k)
            return power(r, 2 * Fr(k), not (whole and int(2 * k) % 2 == 0)).scale(s * _const_pow(c, k))
        s = sign_of(prim_back(prim))
        if s:
            if s < 0:
                prim = -prim
            sg = 1 if absolute or not whole or s > 0 else (-1) ** int(k)
            return pos_atom(prim, k).scale(sg * _const_pow(c, k))
        if prim.key()[0][1] < 0:
            prim = -prim
            sg = 1 if absolute or not whole else (-1) ** int(k)
        else:
            sg = 1
        if whole and not absolute:
            return prim.pow(k).scale(sg * _const_pow(c, k))
        return V({((fresh(prim.key()), k),): 1}).scale(_const_pow(c, k))

    def pos_atom(prim, k):
        if Fr(k).denominator == 1 and k > 0:
            return prim.pow(int(k))
        return V({((_intern(('p', prim.key())), int(k) if Fr(k).denominator == 1 else k),): 1})

    def prim_back(v):
        """In the original generators, for asking about signs."""
        r = ZERO
        for m, c in v.t.items():
            t = V({(): c})
            for a, k in m:
                t = t * (back[a].pow(k) if a in back else V({((a, k),): 1}))
            r = r + t
        return r
    back = {}

    def atom(a, k):
        if (a, k) in cache:
            return cache[(a, k)]
        key = atom_key(a)
        if key[0] == 'v':
            g = V({((a, 1),): 1})
            s = None if _positive(a) else sign_of(g)
            if s in (1, -1):
                p = fresh(key)
                back[p] = g.scale(s)
                if Fr(k).denominator == 1:
                    r = V({((p, k),): s ** int(k)})
                else:
                    r = V({((p, k),): 1})
            else:
                r = V({((a, k),): 1})
        elif key[0] == 'p':
            r = power(rec(V(dict(key[1]))), k, False, V(dict(key[1])))
        elif key[1] == 'abs':
            r = power(rec(V(dict(key[2]))), k, True)
        else:
            args = [rec(V(dict(x))) for x in key[2:]]
            if key[1] == 'pow' and args[1].is_const() and sign_of(prim_back(args[0])) == 1:
                r = power(args[0], exponent(args[1].const_value()) * k, False)
            else:
                r = V.fn(key[1], *[reduced(x) for x in args])
                s = sign_of(V({((a, 1),): 1}))
                if s in (1, -1) and len(r.t) == 1:
                    (m, c), = r.t.items()
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and not _positive(m[0][0]):
                        p = fresh(atom_key(m[0][0]))
                        back[p] = V({((m[0][0], 1),): s * c})
                        r = V({((p, 1),): s})
                r = r.pow(k)
        cache[(a, k)] = r
        return r

    def exponent(c):
        c = Fr(c)
        return int(c) if c.denominator == 1 else c

    def reduced(v):
        """A quotient in lowest terms, as far as its denominators are concerned."""
        if v.is_const() or not any(e < 0 and atom_key(a)[0] == 'p' for m in v.t for a, e in m):
            return v
        low, q = _monomial_gcd(v)
        res = ONE
        for a in list(low):
            if atom_key(a)[0] == 'p' and Fr(low[a]).denominator == 1 and low[a] < 0:
                d = V(dict(atom_key(a)[1]))
                e = int(low[a])
                r = _poly_sqrt(d)
                if r is None:
                    r = _poly_sqrt(-d)
                    if r is not None and e % 2:
                        res = -res
                if r is not None:
                    d, e = r, 2 * e
                while e < 0:
                    n = _divide(q, d)
                    if n is None:
                        break
                    q = n
                    e += 1
                res = res * d.pow(e)
            else:
                res = res * _gen_pow(a, low[a])
        return res * q
    return rec(v)


def _show_atom(a):
    k = atom_key(a)
    if k[0] == 'v':
        return k[1]
    if k[0] == 'p':
        return '(' + show(V(dict(k[1]))) + ')'
    return k[1] + '(' + ', '.join(show(V(dict(x))) for x in k[2:]) + ')'


def show(v, limit=400):
    if not v.t:
        return '0'
    out = []
    for m, c in sorted(v.t.items()):
        if isinstance(c, Fr):
            cs = str(c) if c.denominator < 10**6 else '%.12g' % float(c)
        else:
            cs = str(c)
        ms = '*'.join(_show_atom(a) + ('' if k == 1 else '^' + str(k)) for a, k in m)
        if ms:
            if cs == '1':
                s = ms
            elif cs == '-1':
                s = '-' + ms
            else:
                s = cs + '*' + ms
        else:
            s = cs
        out.append(s)
    r = ' + '.join(out).replace('+ -', '- ')
    return r if len(r) <= limit else r[:limit] + '...'
